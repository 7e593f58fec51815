SPECIFICATION Spec
CONSTANTS Chunk = 3
          MaxAsk = 8
          Asks = 4
INVARIANTS InOrder Exact OneAhead Quiet
PROPERTY Served
CHECK_DEADLOCK FALSE
