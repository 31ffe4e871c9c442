\* three kinds of one value, at most two per entity and two entities in three slots
SPECIFICATION Spec
CONSTANTS
  NKinds = 3
  Vals = {0}
  NSlots = 3
  MaxLen = 3
  Bombs = TRUE
  MaxComp = 2
  MaxEnt = 2
  VMod = 2
VIEW View
INVARIANTS Sane C02_Unique C02_Last C02_NoRepeat C17_Room C09_Match C10_Filter C11_Exact C11_Partition C13_Order C14_Repeats
PROPERTY Steps
CHECK_DEADLOCK FALSE
