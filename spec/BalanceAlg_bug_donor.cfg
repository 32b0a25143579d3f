SPECIFICATION Spec
CONSTANTS
 N = 3
 TOTAL = 15
 OVER = 2
 MARGIN = 40
 DIV = 1
 ONE = FALSE
 CAREFUL = FALSE
INVARIANTS Conserved Legal Must
PROPERTY Rest
CHECK_DEADLOCK FALSE
