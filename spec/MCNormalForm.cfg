SPECIFICATION Spec
CONSTANTS N = 3
 W = {0, 1, 2}
 Depth = 4
INVARIANTS Normal Definition RoundsDontMatter OrderDoesntMatter Idempotent CountStable
CHECK_DEADLOCK FALSE
