\* two registries, three threads, four calls
SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Threads = {1, 2, 3}
  NKinds = 1
  Vals = {0, 1}
  NSlots = 1
  MaxCalls = 4
  MaxComp = 2
  MaxEnt = 1
  VMod = 2
  Limit = "own"
INVARIANTS Alone ReadersSeeWhole Exclusive OrderIrrelevant
CHECK_DEADLOCK FALSE
