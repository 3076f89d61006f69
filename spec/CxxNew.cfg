SPECIFICATION CxxSpec
CONSTANT MaxCalls = 3
INVARIANT Protocol Forms
PROPERTY Terminates
CHECK_DEADLOCK FALSE
