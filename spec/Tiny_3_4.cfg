CONSTANTS P = 3
          EW = 4
INIT Init
NEXT Next
INVARIANTS RoundingIsNearest FmaIsNearest SqrtIsNearest RemIsExact SpecialValues Algebra Monotone Integral Order Encoding
CHECK_DEADLOCK FALSE
