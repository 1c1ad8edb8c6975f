SPECIFICATION Spec
CONSTANTS
 MAXRES = 4
 NB = 4
 NTRY = 4
INVARIANTS MonitorAccepts EverythingFitted NeverSilent OrderFree TableComplete NothingLost NeverMerged
CHECK_DEADLOCK FALSE
