\* behaviours for replay: three kinds, two entities, up to three component sets ever used
SPECIFICATION Spec
CONSTANTS
  NKinds = 3
  Vals = {0}
  MaxLen = 3
  Bombs = TRUE
  MaxComp = 3
  MaxEnt = 2
  MaxArch = 4
  VMod = 256
  InitCap = 2
  Collide = FALSE
  Emit = TRUE
VIEW ShapeView
INVARIANTS Inv
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
CONSTRAINT FewArchs
