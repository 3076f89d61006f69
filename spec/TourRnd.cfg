CONSTANTS
  K = 36
  NS = 4
  NR = 2
  NQ = 0
  FS = 4
  EL = 65536
  GI = 1
  MaxSlabs = 24
  RandomSlot = TRUE
  Faults = FALSE
  Depth = 240
SPECIFICATION TSpec
INVARIANTS Quiet Lists Slotted Agrees Cached Done
CHECK_DEADLOCK FALSE
