SPECIFICATION Spec
CONSTANTS
 NB = 2
 NCOL = 2
 NT = 2
 NOBJ = 1
 MAXBAD = 1
 COMBS <- QuickCombs
INVARIANTS CallsAllowed OncePerSet OnlyUsedSets Catalogue
CHECK_DEADLOCK FALSE
