SPECIFICATION Spec
CONSTANTS
 NB = 3
 N = 2
 WV = {0, 1, 3}
 IV = {1, 3}
 SYMN = 4
INVARIANTS OrderFree Between WeightBounds UsableSomewhere SymIdempotent SymSymmetric SymCommutes SymMinimal
CHECK_DEADLOCK FALSE
