SPECIFICATION Spec
CONSTANTS
  Pts <- Line3
  Qs <- QLine
  Ops <- NetOps
  Thr = 2
  MaxG = 2
  MaxL = 30
  Nodes = {"A", "B"}
  Mortal = {2}
  MaxDown = 0
  Bug = "nohome"
CONSTRAINT Bound
VIEW View
INVARIANT Allowed
CHECK_DEADLOCK FALSE
