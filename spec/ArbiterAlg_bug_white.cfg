SPECIFICATION Spec
CONSTANTS
 MEMBERS = {1, 2, 3}
 CLIENTS = {1, 2}
 WHITES = {{1, 2, 3}, {1, 2}}
 BUG = "white"
INVARIANTS Agreed Whitelisted
CHECK_DEADLOCK FALSE
