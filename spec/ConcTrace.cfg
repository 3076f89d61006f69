SPECIFICATION CSpec
CONSTRAINT Note
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
