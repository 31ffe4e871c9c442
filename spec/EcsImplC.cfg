\* two kinds with two values each, one per entity
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Vals = {0, 1}
  MaxLen = 2
  Bombs = TRUE
  MaxComp = 1
  MaxEnt = 2
  MaxArch = 3
  VMod = 2
  InitCap = 1
  Collide = TRUE
  Emit = FALSE
VIEW Conc
INVARIANTS Inv Queries Room
PROPERTY Refines
CHECK_DEADLOCK FALSE
