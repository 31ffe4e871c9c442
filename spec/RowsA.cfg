SPECIFICATION Spec
CONSTANTS
  Default = 2
  Max = 4
  Caps = {0, 1, 3}
  Numbers = {1, 2, 3, 4}
INVARIANTS Refines Reports Linear
CHECK_DEADLOCK FALSE
