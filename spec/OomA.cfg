SPECIFICATION Spec
CONSTANTS MaxEnts = 6  MaxMoves = 5
INVARIANTS C30_Memory C30_Once C30_Noticed C30_Whole
CHECK_DEADLOCK FALSE
