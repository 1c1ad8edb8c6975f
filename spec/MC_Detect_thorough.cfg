SPECIFICATION Spec
CONSTANTS
 DIMS = {1, 3, 4, 7}
 BOXES = {1, 2, 3, 4, 6, 8, 12}
 POS4 <- DeepPos
 RADS <- DeepRads
 MINS = {2, 3, 5, 8, 16, 32}
 MAXS = {3, 4, 9, 32, 33, 48, 256}
INVARIANTS Faithful NotNegative Inside Centred WithinLimits LargeEnough Tight Monotone
CHECK_DEADLOCK FALSE
