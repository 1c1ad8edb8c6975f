SPECIFICATION Spec
CONSTANTS
  NB = 3
  KINDS = {"good", "other", "nonorm", "missing", "zero", "nomom", "psfnomom", "fluxflag", "negflux"}
  TREGS = {0, 1443}
INVARIANTS
  FlagsAgree SumsAgree PsfFailureShows Union NoCauseNoBit ShearTroubleShows OthersDoNotMatter OrderFree ScaleFree Between RegOnlyAdds
CHECK_DEADLOCK FALSE
