CONSTANTS
  Keys = {1, 2, 3, 4, 5, 6}
  Homes = {0, 1, 2, 3, 4, 5, 6, 7}
  Total0 = 8
  MaxTotal = 16
  Faults = TRUE
  Values = FALSE
  Depth = 0
SPECIFICATION Spec
INVARIANTS Exact Ends Counted Clean
VIEW View
CHECK_DEADLOCK FALSE
