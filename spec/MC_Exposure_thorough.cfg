SPECIFICATION Spec
CONSTANTS
 MAXN = 11
 MAXS = 9
 NB = 4
 VV <- VVt
 IV = {1,4}
 NEXP = 3
INVARIANTS Trims Selects Stamps Coadds
CHECK_DEADLOCK FALSE
