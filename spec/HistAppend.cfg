SPECIFICATION Spec
CONSTANTS Depth = 3
 Emitting = TRUE
INVARIANTS Emit Total FrozenIsNormal NormalMeansMinimal NodeCountRight NoLoopsNoZero
CHECK_DEADLOCK FALSE
