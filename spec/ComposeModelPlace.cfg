\* one frame: placement, interlacing, color table
CONSTANTS MaxBits = 12 SW = 2 SH = 3 Rects = {23, 13, 1013, 112, 22, 1111, 221} Disposals = {4} Controls = {0, 2} Interlace = {0, 64} MaxFrames = 1 Printed = TRUE
INIT Init
NEXT Next
INVARIANTS Composed Emit
CHECK_DEADLOCK TRUE
