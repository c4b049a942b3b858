CONSTANTS MaxBits = 12 MaxBlocks = 4 MaxImages = 1 CheckCuts = TRUE
INIT Init
NEXT Next
INVARIANTS ReadBack Total EmitCuts
CHECK_DEADLOCK TRUE
