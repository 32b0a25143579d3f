SPECIFICATION Spec
CONSTANTS Nodes = {1, 2} Procs = {1, 2} Points = {1, 2, 3, 4} MaxDown = 1 Bug = "none" Inst = "self" First <- MCFirst Menu <- MCMenu
INVARIANTS Once Kept NothingKept InNamespace ConservedAtEnd
PROPERTIES Completes
