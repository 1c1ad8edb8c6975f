SPECIFICATION Spec
CONSTANTS
 NR = 3
 NC = 4
 BUFFS = {0, 1, 2}
INVARIANTS GoodOnly Grows IsoShrinks IsoZero Supported HullPartition HullBox NeverBoth
CHECK_DEADLOCK FALSE
