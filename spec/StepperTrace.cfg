SPECIFICATION TSpec
CONSTANT MaxSteps = 1000
INVARIANT Inv
CHECK_DEADLOCK TRUE
