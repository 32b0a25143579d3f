SPECIFICATION Spec
CONSTANTS
 N = 3
 TOTAL = 15
 OVER = 3
 MARGIN = 0
 DIV = 1
 ONE = TRUE
 CAREFUL = TRUE
INVARIANTS Conserved Legal Must
PROPERTY Rest
CHECK_DEADLOCK FALSE
