SPECIFICATION Spec
CONSTANTS
  Kinds = {1,2,3}
  MaxSets = 4
  MaxKinds = 3
  MaxCoh = 2
  MaxN = 4
  MaxEnt = 3
INVARIANT TypeOk RefusedOnlyAtLimits RoomReturns ExistingSetsKeepWorking FillRight CycleRight WavesRight FlipsRight DestroyRight WalkRight
CHECK_DEADLOCK FALSE
