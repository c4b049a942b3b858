CONSTANT MaxAdds = 3
INIT Init
NEXT Next
INVARIANTS Holds Apart Emit
CHECK_DEADLOCK TRUE
