SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT Normalized
CHECK_DEADLOCK FALSE
