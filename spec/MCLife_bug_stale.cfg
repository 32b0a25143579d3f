SPECIFICATION Spec
CONSTANTS
  Srvs = {"n1", "n2", "n3"}
  AddrOf <- Addrs3
  Ids = {1, 2}
  MaxStarts = 4
  Bug = "stale"
PROPERTIES Right Kept Apart
INVARIANT Agrees
VIEW View
CHECK_DEADLOCK FALSE
