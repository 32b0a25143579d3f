SPECIFICATION Spec
CONSTANTS
  Pts <- Line3
  Qs <- QLine
  Ops <- NetOps
  Thr = 0
  MaxG = 2
  MaxL = 6
  Nodes = {"A", "B", "C"}
  Mortal = {}
  MaxDown = 1
  Bug = "none"
CONSTRAINT Bound
VIEW View
INVARIANT Allowed
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
