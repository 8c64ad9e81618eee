SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT GraphsInvariant
CHECK_DEADLOCK FALSE
