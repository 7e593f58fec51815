SPECIFICATION Spec
CONSTANTS N = 4
          Rounds = 2
