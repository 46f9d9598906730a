CONSTANTS P = 237
          EW = 19
          PiBits = 263500
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
