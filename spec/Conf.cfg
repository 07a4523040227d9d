SPECIFICATION TraceSpec
POSTCONDITION Visited
CHECK_DEADLOCK FALSE
