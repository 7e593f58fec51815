SPECIFICATION Spec
CONSTANTS Base = 2
          Ext = 5
          MaxReq = 8
          Lots = 4
INVARIANTS UsedOnce Reserve Complete Free Free2
PROPERTY Served
CHECK_DEADLOCK FALSE
