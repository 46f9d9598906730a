CONSTANTS P = 53
 EW = 11
 PiBits = 3000
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
