SPECIFICATION Spec
CONSTANTS Depth = 3
 Emitting = TRUE
INVARIANTS Emit Total FrozenIsNormal NodeCountRight RoundTrip
CHECK_DEADLOCK FALSE
