SPECIFICATION Spec
CONSTANTS
 N = 4
 MAXOPS = 2
 HS = {1, 3}
 RS = {3, 9}
 PS <- PSq
INVARIANTS WeightsAreUnion MfracIsUnion BitsAreUnion BelowOneInZone TurnsBack Kernel
CHECK_DEADLOCK FALSE
