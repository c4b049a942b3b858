CONSTANTS MaxBits = 12 MaxSteps = 3 Loops = {} Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Survives
CHECK_DEADLOCK TRUE
