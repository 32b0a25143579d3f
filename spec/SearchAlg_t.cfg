CONSTANTS
  N = 6
  Max = 2
  Bug = "none"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
