\* three component sets, up to eight entities
SPECIFICATION Spec
CONSTANTS
  Sets = {1, 2, 3}
  MaxEnt = 8
  First = 2
INVARIANTS C29_Bounded Table C29_Idle
PROPERTY C29_Again
CHECK_DEADLOCK FALSE
