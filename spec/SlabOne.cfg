CONSTANTS
  K = 48
  NS = 1
  NR = 0
  NQ = 2
  FS = 1
  EL = 0
  GI = 1
  MaxSlabs = 8
  RandomSlot = TRUE
  Faults = TRUE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
