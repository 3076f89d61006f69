SPECIFICATION Spec
CONSTANT Width = 8
INVARIANTS InRange Even Shape
CHECK_DEADLOCK FALSE
