SPECIFICATION Spec
CONSTANTS
  MaxKinds = 4
  Ids = {0, 1, 2, 3, 4, 5}
INVARIANTS Describes Sorted Padded Refusals Relations Unique
CHECK_DEADLOCK FALSE
