SPECIFICATION Spec
INVARIANT Finished
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
