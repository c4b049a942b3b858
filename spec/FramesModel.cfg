CONSTANTS MaxBits = 12 MaxUnits = 4 Printed = TRUE
INIT Init
NEXT Next
INVARIANTS FramesRight PreambleRight PreambleNeutral Emit
CHECK_DEADLOCK TRUE
