SPECIFICATION Spec
CONSTANTS
 MAXRES = 3
 NB = 3
 NTRY = 2
INVARIANTS MonitorAccepts EverythingFitted NeverSilent OrderFree TableComplete NothingLost NeverMerged
CHECK_DEADLOCK FALSE
