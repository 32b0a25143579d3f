SPECIFICATION Spec
CONSTANTS Nodes = {1} Procs = {1, 2, 3, 4} Points = {1, 2, 3, 4} MaxDown = 0 Bug = "none" Inst = "one" First <- MCFirst Menu <- MCMenu
INVARIANTS Once Kept NothingKept InNamespace LinearizableAtEnd
PROPERTIES Completes
