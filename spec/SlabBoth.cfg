CONSTANTS
  K = 36
  NS = 2
  NR = 1
  NQ = 1
  FS = 0
  EL = 32768
  GI = 2
  MaxSlabs = 4
  RandomSlot = TRUE
  Faults = TRUE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
