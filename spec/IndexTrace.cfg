SPECIFICATION Spec
CONSTANT MaxKinds = 14
INVARIANT Finished
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
