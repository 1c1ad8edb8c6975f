SPECIFICATION Spec
CONSTANTS
 DIMS = {3, 5}
 BOXES = {2, 3, 4, 6}
 POS4 <- QuickPos
 RADS = {0, 3, 9, 16, 31}
 MINS = {2, 5, 8, 32}
 MAXS = {4, 9, 32, 48}
INVARIANTS Faithful NotNegative Inside Centred WithinLimits LargeEnough Tight Monotone
CHECK_DEADLOCK FALSE
