CONSTANTS
  N = 3
  Max = 2
  Bug = "shift"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
