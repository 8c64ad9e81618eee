SPECIFICATION Spec
CONSTANTS Depth = 3
 Emitting = TRUE
INVARIANTS Emit Total OneValuePerKey SlotsRefer OrdersArePermutations
CHECK_DEADLOCK FALSE
