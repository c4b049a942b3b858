CONSTANTS MaxBits = 12 MaxSteps = 2 Loops = {3} Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Survives Emit
CHECK_DEADLOCK TRUE
