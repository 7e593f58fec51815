SPECIFICATION Spec
CONSTANTS N = 5
          Rounds = 3
