SPECIFICATION Spec
CONSTANTS
 MAXBAND = 3
INVARIANTS FlagsAsDefined PartsAsDefined CleanMeansMeasured NotAttemptedMeansEmpty UnusableNeverMeasured PsfFailureShows
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
