SPECIFICATION Spec
CONSTANTS
 NEVER = 4
 CLAMP = 5
 WRAP = 7
 RECHECK = TRUE
 MAXLOOP = 12
INVARIANTS Exact NotLate
PROPERTY Ends
CHECK_DEADLOCK FALSE
