SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Emit NoiseIrrelevant OrderIrrelevant Bounded Again BothReaders
CHECK_DEADLOCK FALSE
