SPECIFICATION Spec
CONSTANTS Chunk = 4
          MaxAsk = 11
          Asks = 5
INVARIANTS InOrder Exact OneAhead Quiet
PROPERTY Served
CHECK_DEADLOCK FALSE
