SPECIFICATION GSpec
CONSTANT MaxSteps = 1
CHECK_DEADLOCK FALSE
