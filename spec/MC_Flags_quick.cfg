SPECIFICATION Spec
CONSTANTS
 MAXBITS = 3
INVARIANTS RoundTrip Fits Meet Join
CHECK_DEADLOCK FALSE
