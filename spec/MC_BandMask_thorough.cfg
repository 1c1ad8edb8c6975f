SPECIFICATION Spec
CONSTANTS
  N = 6
  MAXOPS = 2
  GROW = 9
  XS <- XSt
  RS = {0, 5, 12}
  OS <- OSq
INVARIANTS
  VarianceIsUnion
  FractionIsUnion
  BitsAreUnion
  BrightInsideGrown
  FrameFree
CHECK_DEADLOCK FALSE
