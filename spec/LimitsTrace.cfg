SPECIFICATION Spec
CONSTANTS
  MaxEnt = 16777215
  MaxSets = 65534
  MaxKinds = 14
INVARIANT Finished
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
