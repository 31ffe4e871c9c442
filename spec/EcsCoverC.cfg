\* behaviours for replay: two kinds, four entities, up to two component sets ever used
SPECIFICATION Spec
CONSTANTS
  NKinds = 2
  Vals = {0}
  MaxLen = 2
  Bombs = TRUE
  MaxComp = 2
  MaxEnt = 4
  MaxArch = 3
  VMod = 256
  InitCap = 4
  Collide = FALSE
  Emit = TRUE
VIEW ShapeView
INVARIANTS Inv
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
CONSTRAINT FewArchs
