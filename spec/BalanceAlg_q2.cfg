SPECIFICATION Spec
CONSTANTS
 N = 2
 TOTAL = 40
 OVER = 3
 MARGIN = 40
 DIV = 3
 ONE = FALSE
 CAREFUL = TRUE
INVARIANTS Conserved Legal Must
PROPERTY Rest
CHECK_DEADLOCK FALSE
