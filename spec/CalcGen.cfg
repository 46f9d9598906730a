CONSTANTS P = 237
          EW = 19
          NR = 4
          HL = 64
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
