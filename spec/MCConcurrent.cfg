SPECIFICATION Spec
CONSTANTS N = 3
 W = {1}
 WM = 3
 Threads = {1, 2}
INVARIANTS EachExact
PROPERTIES SharedUnchanged
CHECK_DEADLOCK FALSE
