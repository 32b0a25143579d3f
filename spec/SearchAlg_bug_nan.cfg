CONSTANTS
  N = 3
  Max = 2
  Bug = "nan"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
