\* three kinds with colliding identifiers, one value, at most three component sets
SPECIFICATION Spec
CONSTANTS
  NKinds = 3
  Vals = {0}
  MaxLen = 3
  Bombs = FALSE
  MaxComp = 3
  MaxEnt = 2
  MaxArch = 3
  VMod = 2
  InitCap = 1
  Collide = TRUE
  Emit = FALSE
VIEW Conc
INVARIANTS Inv Queries Room
PROPERTY Refines
CHECK_DEADLOCK FALSE
