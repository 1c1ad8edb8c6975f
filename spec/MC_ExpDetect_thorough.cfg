SPECIFICATION Spec
CONSTANTS
  NRUN = 2
  NBMAX = 2
  FMAX = 2
  EMIT = FALSE
INVARIANTS AsPlanned OnceEach DetectFirst DeblendWhatWasFound ScarletReady SettingsWin DetectedKept
PROPERTY EveryRunEnds
CHECK_DEADLOCK FALSE
