CONSTANTS MaxBits = 12 MaxBlocks = 6 MaxImages = 1 CheckCuts = FALSE
INIT Init
NEXT Next
INVARIANTS ReadBack Total Emit
CHECK_DEADLOCK TRUE
