CONSTANTS MaxBits = 12 MaxSteps = 4 LoopCounts = {0, 1, 2, 3, 7} MaxCalls = 36 Printed = TRUE
INIT Init
NEXT Next
INVARIANTS Right Emit
CHECK_DEADLOCK TRUE
