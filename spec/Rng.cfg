SPECIFICATION Spec
CONSTANTS Cache = 8
 Reseed = 24
 Word = 4
 MaxFront = 48
INVARIANTS Fresh Reseeded InCache
CHECK_DEADLOCK FALSE
