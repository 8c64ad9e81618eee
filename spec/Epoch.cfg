SPECIFICATION Spec
CONSTANTS Nodes = {0, 1, 2}
 Top = 6
INVARIANTS Ind Faithful
CHECK_DEADLOCK FALSE
