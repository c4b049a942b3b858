\* three frames
CONSTANTS MaxBits = 12 SW = 2 SH = 1 Rects = {21, 11, 1011} Disposals = {0, 2, 3} Controls = {1, 2} Interlace = {0} MaxFrames = 3 Printed = FALSE
INIT Init
NEXT Next
INVARIANTS Composed
CHECK_DEADLOCK TRUE
