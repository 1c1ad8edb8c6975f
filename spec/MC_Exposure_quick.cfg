SPECIFICATION Spec
CONSTANTS
 MAXN = 7
 MAXS = 6
 NB = 4
 VV <- VVs
 IV = {1, 6}
 NEXP = 2
INVARIANTS Trims Selects Stamps Coadds
CHECK_DEADLOCK FALSE
