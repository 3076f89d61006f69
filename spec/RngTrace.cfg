SPECIFICATION RSpec
CONSTRAINT Note
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
