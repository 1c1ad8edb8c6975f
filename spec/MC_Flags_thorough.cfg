SPECIFICATION Spec
CONSTANTS
 MAXBITS = 4
INVARIANTS RoundTrip Fits Meet Join
CHECK_DEADLOCK FALSE
