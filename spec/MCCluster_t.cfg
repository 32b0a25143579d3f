SPECIFICATION Spec
CONSTANTS Nodes = {1, 2} Procs = {1, 2, 3} Points = {1, 2, 3, 4} MaxDown = 0 Bug = "none" Inst = "three" First <- MCFirst Menu <- MCMenu
INVARIANTS Once Kept NothingKept InNamespace
VIEW NoTimes
