SPECIFICATION SpecLarge
CONSTANTS N = 3
 W = {1, 2}
 WM = 4
 IW = {0}
 MaxList = 1
INVARIANTS Exact UpDown
CHECK_DEADLOCK FALSE
