SPECIFICATION Spec
CONSTANTS
 VC <- VCt
 MC = {0, 5}
 MAXSTEPS = 7
 NP = 3
INVARIANTS PixelsKept WeightsKept MaskKept ChainIsFold
CHECK_DEADLOCK FALSE
