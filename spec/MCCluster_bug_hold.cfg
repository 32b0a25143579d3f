SPECIFICATION Spec
CONSTANTS Nodes = {1, 2} Procs = {1, 2} Points = {1, 2, 3, 4} MaxDown = 0 Bug = "hold" Inst = "many" First <- MCFirst Menu <- MCMenu
INVARIANTS Once
PROPERTIES Completes
