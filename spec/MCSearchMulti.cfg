SPECIFICATION Spec
CONSTANTS N = 3
 W = {1}
 WM = 4
 IW = {0, 1}
 MaxList = 2
INVARIANTS Preserved Exact

CHECK_DEADLOCK FALSE
