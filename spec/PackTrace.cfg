SPECIFICATION Spec
CONSTANTS
  IBase = 16777216
  VBase = 256
  ABase = 65536
INVARIANT Finished
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
