CONSTANTS
  N = 4
  Max = 2
  Bug = "none"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
