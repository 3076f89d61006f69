SPECIFICATION TraceSpec
CONSTRAINT Note
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
