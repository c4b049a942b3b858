INIT Init
NEXT Next
ALIAS Where
CHECK_DEADLOCK TRUE
