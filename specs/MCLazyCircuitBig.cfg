SPECIFICATION Spec
CONSTANTS Parties = {0, 1}
          R = 2
          MaxWires = 5
          Eager = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
