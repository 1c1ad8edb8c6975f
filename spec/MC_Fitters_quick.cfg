SPECIFICATION Spec
CONSTANTS
  MAXF = 2
  MODELS = {"wmom", "pgauss", "am", "gauss"}
  FWHMS = {90, 120}
  REGS <- RegsQ
  SYMMS <- SymmsQ
  COADDS <- CoaddsQ
INVARIANTS
  AsDefined Independent NothingElse Defaults RegOnlyNames EveryBand SymmLoses
CHECK_DEADLOCK FALSE
