\* behaviours for replay: two kinds, three entities
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Vals = {0}
  MaxLen = 2
  Bombs = TRUE
  MaxComp = 2
  MaxEnt = 3
  MaxArch = 4
  VMod = 256
  InitCap = 3
  Collide = FALSE
  Emit = TRUE
VIEW ShapeView
INVARIANTS Inv
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
