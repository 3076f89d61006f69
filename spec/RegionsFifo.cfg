CONSTANTS
  W = 24
  Sizes2 <- MySizes
  Thr = 100
  NR = 0
  NQ = 2
  MaxLive = 2
  Faults = FALSE
SPECIFICATION Spec
INVARIANTS Quiet Apart Agrees
VIEW View
CHECK_DEADLOCK FALSE
