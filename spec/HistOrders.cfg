SPECIFICATION Spec
CONSTANTS Depth = 1
 Emitting = TRUE
INVARIANTS Emit Total OnlyPermutations
CHECK_DEADLOCK FALSE
