CONSTANTS P = 3
          EW = 3
          NR = 2
          HL = 2
SPECIFICATION Spec
INVARIANTS TypeOK Provenance
CHECK_DEADLOCK FALSE
