SPECIFICATION Spec
CONSTANTS Depth = 3
 Emitting = TRUE
INVARIANTS Emit Total
CHECK_DEADLOCK FALSE
