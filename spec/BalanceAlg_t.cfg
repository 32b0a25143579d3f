SPECIFICATION Spec
CONSTANTS
 N = 3
 TOTAL = 42
 OVER = 2
 MARGIN = 40
 DIV = 3
 ONE = TRUE
 CAREFUL = TRUE
INVARIANTS Conserved Legal Must
PROPERTY Rest
CHECK_DEADLOCK FALSE
