\* two kinds, every registry over them, two iterators at once, few predicates
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Iters = {i1, i2}
  i1 = i1
  i2 = i2
  Asks = "few"
INVARIANTS Once Right Whole WholeBut OnlyYielded NoOther
PROPERTY Steps
SYMMETRY Same
CHECK_DEADLOCK FALSE
