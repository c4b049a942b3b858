CONSTANTS MaxBits = 12 MaxCalls = 4 Faults = {} Printed = TRUE
INIT Init
NEXT Next
INVARIANTS Order Useful Output ReadsBack Emit
CHECK_DEADLOCK TRUE
