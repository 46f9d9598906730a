CONSTANTS P = 237
          EW = 19
          PiBits = 263500
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
