SPECIFICATION Spec
CONSTANTS
 NB = 2
 NCOL = 2
 NT = 2
 NOBJ = 2
 MAXBAD = 2
 COMBS <- ThoroughCombs
INVARIANTS CallsAllowed OncePerSet OnlyUsedSets Catalogue
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
