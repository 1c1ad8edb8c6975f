SPECIFICATION Spec
CONSTANTS
  NRUN = 1
  NBMAX = 3
  FMAX = 2
  EMIT = TRUE
INVARIANTS AsPlanned OnceEach DetectFirst DeblendWhatWasFound ScarletReady SettingsWin DetectedKept
PROPERTY EveryRunEnds
CHECK_DEADLOCK FALSE
