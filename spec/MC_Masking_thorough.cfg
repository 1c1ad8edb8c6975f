SPECIFICATION Spec
CONSTANTS
 N = 4
 MAXOPS = 2
 HS = {1, 3, 6}
 RS = {3, 9, 30}
 PS <- PSt
INVARIANTS WeightsAreUnion MfracIsUnion BitsAreUnion BelowOneInZone TurnsBack Kernel
CHECK_DEADLOCK FALSE
