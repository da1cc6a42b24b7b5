SPECIFICATION Spec
CONSTANT MaxSteps = 12
INVARIANTS CountersAgree SplitInStep SplitSymmetric
PROPERTY Monotone
CHECK_DEADLOCK FALSE
