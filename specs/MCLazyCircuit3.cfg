SPECIFICATION Spec
CONSTANTS Parties = {0, 1, 2}
          R = 2
          MaxWires = 3
          Eager = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
