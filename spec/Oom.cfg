SPECIFICATION Spec
CONSTANTS MaxEnts = 4  MaxMoves = 3
INVARIANTS C30_Memory C30_Once C30_Noticed C30_Whole
CHECK_DEADLOCK FALSE
