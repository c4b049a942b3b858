CONSTANTS MaxBits = 12 Sizes = {1, 2, 5} Ahead = 1 Lazy = FALSE
SPECIFICATION Spec
INVARIANTS Faithful Exact
PROPERTY Prompt
CHECK_DEADLOCK TRUE
