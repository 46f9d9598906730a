CONSTANTS P = 237
          EW = 19
          PiBits = 263500
INIT SInit
NEXT SNext
CHECK_DEADLOCK FALSE
