SPECIFICATION Spec
CONSTANTS
 NEVER = 4
 CLAMP = 5
 WRAP = 0
 RECHECK = FALSE
 MAXLOOP = 12
INVARIANTS Exact NotLate
PROPERTY Ends
CHECK_DEADLOCK FALSE
