SPECIFICATION Spec
CONSTANTS
 MAXSTEPS = 5
 MAXHELD = 3
INVARIANTS DefaultsFixed Functional Complete Idempotent
CHECK_DEADLOCK FALSE
