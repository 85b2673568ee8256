SPECIFICATION TraceSpec
INVARIANT Done
CHECK_DEADLOCK FALSE
