SPECIFICATION Spec
CONSTANTS Base = 3
          Ext = 7
          MaxReq = 14
          Lots = 7
INVARIANTS UsedOnce Reserve Complete Free Free2
PROPERTY Served
CHECK_DEADLOCK FALSE
