CONSTANTS
  K = 36
  NS = 2
  NR = 0
  NQ = 0
  FS = 2
  EL = 98304
  GI = 1
  MaxSlabs = 7
  RandomSlot = FALSE
  Faults = FALSE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
