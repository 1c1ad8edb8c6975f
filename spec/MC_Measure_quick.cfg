SPECIFICATION Spec
CONSTANTS
  NS = 3
  KINDS = {"parent", "edge", "zero", "ok", "nocen", "badfit"}
  WITHMODELS = {TRUE, FALSE}
INVARIANTS
  OneRowEach
  NoParents
  ReasonsRight
  NobodyLeftIn
  OwnOnly
  OneCallEach
PROPERTIES
  Done
CHECK_DEADLOCK FALSE
