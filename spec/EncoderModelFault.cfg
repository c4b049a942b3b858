CONSTANTS MaxBits = 12 MaxCalls = 4 Faults = {0, 1, 3, 6, 12, 13, 18, 19, 20, 24, 25, 29, 30, 31, 34, 35, 36, 40, 45, 50, 60, 70} Printed = FALSE
INIT Init
NEXT Next
INVARIANTS Order Useful Output ReadsBack
CHECK_DEADLOCK TRUE
