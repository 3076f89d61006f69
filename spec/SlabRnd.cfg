CONSTANTS
  K = 36
  NS = 2
  NR = 2
  NQ = 0
  FS = 2
  EL = 32768
  GI = 1
  MaxSlabs = 6
  RandomSlot = TRUE
  Faults = FALSE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
