SPECIFICATION Spec
CONSTANTS
  MaxComp = 14
  MaxEnt = 16777215
  VMod = 256
INVARIANT Finished
INVARIANT JudgeSane
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
