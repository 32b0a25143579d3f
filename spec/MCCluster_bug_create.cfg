SPECIFICATION Spec
CONSTANTS Nodes = {1} Procs = {1, 2, 3} Points = {1, 2, 3} MaxDown = 0 Bug = "create" Inst = "one" First <- MCFirst Menu <- MCMenu
INVARIANTS Once Kept
PROPERTIES Completes
