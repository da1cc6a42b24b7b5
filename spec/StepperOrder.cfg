SPECIFICATION OSpec
CONSTANT MaxSteps = 1
INVARIANTS OrderHolds StepsCover
CHECK_DEADLOCK FALSE
