SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
