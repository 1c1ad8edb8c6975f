SPECIFICATION Spec
CONSTANTS
 MAXBAND = 2
INVARIANTS FlagsAsDefined PartsAsDefined CleanMeansMeasured NotAttemptedMeansEmpty UnusableNeverMeasured PsfFailureShows

CHECK_DEADLOCK FALSE
