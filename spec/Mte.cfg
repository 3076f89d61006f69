CONSTANTS
  Slots = 4
  MaxTag = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
