\* two kinds with two values each, two slots, three versions
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Vals = {0, 1}
  NSlots = 2
  MaxLen = 2
  Bombs = TRUE
  MaxComp = 2
  MaxEnt = 2
  VMod = 3
VIEW View
INVARIANTS Sane C02_Unique C02_Last C02_NoRepeat C17_Room C09_Match C10_Filter C11_Exact C11_Partition C13_Order C14_Repeats
PROPERTY Steps
CHECK_DEADLOCK FALSE
