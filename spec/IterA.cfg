\* three kinds, every registry over them, one iterator at a time
SPECIFICATION Spec
CONSTANTS
  NKinds = 3
  Iters = {i1}
  i1 = i1
  Asks = "few"
INVARIANTS Once Right Whole WholeBut OnlyYielded NoOther
PROPERTY Steps
CHECK_DEADLOCK FALSE
