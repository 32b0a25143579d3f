SPECIFICATION Spec
CONSTANTS
  Pts <- Line4
  Qs <- QLine
  Ops <- LibOps
  Thr = 3
  MaxG = 3
  MaxL = 30
  Nodes = {}
  Mortal = {2}
  MaxDown = 0
  Bug = "serve"
CONSTRAINT Bound
VIEW View
INVARIANT Allowed
CHECK_DEADLOCK FALSE
