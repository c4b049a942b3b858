\* two pixels, all rectangles: every combination of disposal and transparency
CONSTANTS MaxBits = 12 SW = 2 SH = 1 Rects = {21, 11, 1011} Disposals = {0, 2, 3} Controls = {1, 2} Interlace = {0} MaxFrames = 2 Printed = TRUE
INIT Init
NEXT Next
INVARIANTS Composed Emit
CHECK_DEADLOCK TRUE
