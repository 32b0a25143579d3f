SPECIFICATION Spec
CONSTANTS
  Pts <- Plane4
  Qs <- QPlane
  Ops <- LibOps
  Thr = 2
  MaxG = 3
  MaxL = 30
  Nodes = {}
  Mortal = {2}
  MaxDown = 0
  Bug = "none"
CONSTRAINT Bound
VIEW View
INVARIANT Allowed
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
