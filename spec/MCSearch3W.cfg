SPECIFICATION Spec
CONSTANTS N = 3
 W = {1, 2, 4}
 WM = 7
 IW = {0}
 MaxList = 1
INVARIANTS Preserved Exact

CHECK_DEADLOCK FALSE
