CONSTANTS
  K = 0
  NS = 2
  NR = 0
  NQ = 0
  FS = 1
  EL = 4096
  GI = 1
  MaxSlabs = 6
  RandomSlot = TRUE
  Faults = TRUE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
