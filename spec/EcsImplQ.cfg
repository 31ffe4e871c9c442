\* two kinds, one value, three slots
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Vals = {0}
  MaxLen = 2
  Bombs = TRUE
  MaxComp = 2
  MaxEnt = 2
  MaxArch = 3
  VMod = 2
  InitCap = 1
  Collide = TRUE
  Emit = FALSE
VIEW Conc
INVARIANTS Inv Queries Room
PROPERTY Refines
CHECK_DEADLOCK FALSE
