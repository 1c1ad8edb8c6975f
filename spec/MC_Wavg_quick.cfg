SPECIFICATION Spec
CONSTANTS
  NB = 2
  KINDS = {"good", "other", "nonorm", "missing", "edge", "zero", "symzero", "nomom", "psfnomom", "psfnoflux", "noflux", "fluxflag", "negflux", "negsize", "novar", "psfneg"}
  TREGS = {0, 1443}
INVARIANTS
  FlagsAgree SumsAgree PsfFailureShows Union NoCauseNoBit ShearTroubleShows OthersDoNotMatter OrderFree ScaleFree Between RegOnlyAdds
CHECK_DEADLOCK FALSE
