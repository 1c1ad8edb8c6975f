SPECIFICATION Spec
CONSTANTS
 VC <- VCq
 MC = {0, 5}
 MAXSTEPS = 4
 NP = 2
INVARIANTS PixelsKept WeightsKept MaskKept ChainIsFold
CHECK_DEADLOCK FALSE
