CONSTANTS MaxBits = 12 Requests = 3 Chunks0 = {0, 1, 3, 4, 7} MaxTransfers = 7 Limits = {0, 1, 5, 6, 7, 12, 13, 14}
INIT Init
NEXT Next
INVARIANTS Independent Exact Emit
CHECK_DEADLOCK TRUE
