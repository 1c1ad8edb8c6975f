SPECIFICATION Spec
CONSTANTS
  LEAVES = {"stamp_size", "deblender", "shear_bands", "thresh", "types", "reconv", "subtract_sky", "fwhm"}
INVARIANTS
  OnlyNamed
  AllSetAtEnd
PROPERTIES
  DefaultsKept
CHECK_DEADLOCK FALSE
