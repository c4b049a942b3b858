CONSTANTS MaxBits = 12 MaxUnits = 6 Printed = FALSE
INIT Init
NEXT Next
INVARIANTS FramesRight PreambleRight PreambleNeutral
CHECK_DEADLOCK TRUE
