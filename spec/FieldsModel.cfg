CONSTANTS MaxBits = 12 Types = {"lsd", "img", "gce"}
INIT Init
NEXT Next
INVARIANTS OnlyNamed AsSet FlagsKept Emit
CHECK_DEADLOCK TRUE
