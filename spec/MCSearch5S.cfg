SPECIFICATION SpecSample
CONSTANTS N = 5
 W = {1, 2, 3, 5}
 WM = 9
 IW = {0}
 MaxList = 1
 K = 800
INVARIANTS Preserved Exact
CHECK_DEADLOCK FALSE
