SPECIFICATION Spec
CONSTANTS Parties = {0, 1}
          R = 4
          MaxWires = 3
          Eager = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
