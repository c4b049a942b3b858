CONSTANTS MaxBits = 12 Sizes = {1, 6, 9} Ahead = 0 Lazy = TRUE
INIT Init
NEXT Next
INVARIANTS Faithful Exact Emit
CHECK_DEADLOCK TRUE
