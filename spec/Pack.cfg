SPECIFICATION Spec
CONSTANTS
  IBase = 6
  VBase = 4
  ABase = 5
INVARIANT HandleReads EntryReads OneInvalidHandle InvalidEntries
CHECK_DEADLOCK FALSE
