SPECIFICATION Spec
CONSTANTS Depth = 1
INVARIANTS Emit BestChoice Irrelevant OneWeight
CHECK_DEADLOCK FALSE
