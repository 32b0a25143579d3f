SPECIFICATION BagSpec
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
ALIAS Short
