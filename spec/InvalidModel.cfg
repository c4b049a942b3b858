CONSTANTS MaxBits = 12 SW = 2 SH = 2 Span = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Right AllErrors Emit
CHECK_DEADLOCK TRUE
