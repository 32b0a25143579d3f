SPECIFICATION Spec
CONSTANTS
 N = 2
 TOTAL = 40
 OVER = 2
 MARGIN = 40
 DIV = 12
 ONE = TRUE
 CAREFUL = TRUE
INVARIANTS Conserved Legal Must
PROPERTY Rest
CHECK_DEADLOCK FALSE
