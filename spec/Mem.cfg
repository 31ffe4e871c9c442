\* two component sets, up to six entities
SPECIFICATION Spec
CONSTANTS
  Sets = {1, 2}
  MaxEnt = 6
  First = 2
INVARIANTS C29_Bounded Table C29_Idle
PROPERTY C29_Again
CHECK_DEADLOCK FALSE
