SPECIFICATION IoSpec
CONSTANTS
  Threads = {1, 2, 3, 4}
  NArena = 3
  Fields = 3
INVARIANTS TypeOK Once Complete Quiet
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
