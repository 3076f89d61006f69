CONSTANTS
  Threads = {1, 2}
  Classes = {"a", "b"}
  Forks = 2
  OpsPer = 2
SPECIFICATION Spec
INVARIANTS Excl ChildWhole
