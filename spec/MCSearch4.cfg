SPECIFICATION Spec
CONSTANTS N = 4
 W = {1}
 WM = 4
 IW = {0}
 MaxList = 1
INVARIANTS Preserved Exact

CHECK_DEADLOCK FALSE
