SPECIFICATION Spec
CONSTANTS
  Positions <- CPositions
  Dims <- CDims
  Jacs <- CJacs
  Steps <- CSteps
  Depth = 1
INVARIANTS Inverse CentreFixed NotTrivial Undone Emit
CHECK_DEADLOCK FALSE
