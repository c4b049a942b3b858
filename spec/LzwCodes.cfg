CONSTANTS MaxBits = 12 MinCode = 2 MaxCodes = 4 Junk = FALSE Sizes = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS Sane Emit
CHECK_DEADLOCK TRUE
