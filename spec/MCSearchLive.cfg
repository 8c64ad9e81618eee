SPECIFICATION FairSpec
CONSTANTS N = 3
 W = {1}
 WM = 3
 IW = {0}
 MaxList = 1
INVARIANTS Preserved Exact
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
