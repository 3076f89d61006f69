CONSTANTS
  W = 20
  Sizes2 <- MySizes
  Thr = 6
  NR = 0
  NQ = 1
  MaxLive = 2
  Faults = TRUE
SPECIFICATION Spec
INVARIANTS Quiet Apart Agrees
VIEW View
CHECK_DEADLOCK FALSE
