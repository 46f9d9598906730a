CONSTANTS P = 4
          EW = 3
INIT Init
NEXT Next
INVARIANTS RoundingIsNearest FmaIsNearest SqrtIsNearest RemIsExact SpecialValues Algebra Monotone Integral Order Encoding
CHECK_DEADLOCK FALSE
