SPECIFICATION Spec
CONSTANTS
  N = 4
  MAXOPS = 2
  GROW = 9
  XS <- XSq
  RS = {0, 5}
  OS <- OSq
INVARIANTS
  VarianceIsUnion
  FractionIsUnion
  BitsAreUnion
  BrightInsideGrown
  FrameFree
CHECK_DEADLOCK FALSE
