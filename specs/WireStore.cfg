SPECIFICATION Spec
CONSTANTS Slots = 4
          MaxWires = 4
          MaxHandles = 4
          GatesHold = TRUE
INVARIANTS Keeps Waits Counts NoLeak
CHECK_DEADLOCK FALSE
