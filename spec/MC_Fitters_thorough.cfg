SPECIFICATION Spec
CONSTANTS
  MAXF = 2
  MODELS = {"wmom", "ksigma", "pgauss", "am", "admom", "gauss"}
  FWHMS = {90, 120}
  REGS <- RegsT
  SYMMS <- SymmsT
  COADDS <- CoaddsQ
INVARIANTS
  AsDefined Independent NothingElse Defaults RegOnlyNames EveryBand SymmLoses
CHECK_DEADLOCK FALSE
