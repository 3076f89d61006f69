CONSTANTS
  K = 36
  NS = 3
  NR = 0
  NQ = 0
  FS = 1
  EL = 49152
  GI = 1
  MaxSlabs = 6
  RandomSlot = TRUE
  Faults = TRUE
  ClassSlots <- MySlots
  EmptyLimit <- MyLimit
SPECIFICATION Spec
INVARIANTS Quiet Lists Slotted Agrees Cached
VIEW View
CHECK_DEADLOCK FALSE
