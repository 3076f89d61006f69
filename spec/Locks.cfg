CONSTANTS
  Threads = {1, 2, 3}
  Classes = {"a", "b"}
  Forks = 1
  OpsPer = 1
SPECIFICATION Spec
INVARIANTS Excl ChildWhole
