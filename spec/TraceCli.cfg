CONSTANT MaxBits = 12
INIT Init
NEXT Next
ALIAS Where
CHECK_DEADLOCK TRUE
