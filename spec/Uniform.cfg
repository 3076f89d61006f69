SPECIFICATION Spec
CONSTANT Width = 6
INVARIANTS InRange Even Shape
CHECK_DEADLOCK FALSE
