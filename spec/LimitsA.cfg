SPECIFICATION Spec
CONSTANTS
  Kinds = {1,2,3,4}
  MaxSets = 5
  MaxKinds = 3
  MaxCoh = 2
  MaxN = 3
  MaxEnt = 3
INVARIANT TypeOk RefusedOnlyAtLimits RoomReturns ExistingSetsKeepWorking FillRight CycleRight WavesRight FlipsRight DestroyRight WalkRight
CHECK_DEADLOCK FALSE
