SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANT Stop
