CONSTANTS MaxBits = 12 MaxCalls = 3
INIT Init
NEXT Next
INVARIANTS LastWins Commutes NoControl Emit
CHECK_DEADLOCK TRUE
