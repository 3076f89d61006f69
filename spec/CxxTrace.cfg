SPECIFICATION CtSpec
CONSTRAINT Note
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
