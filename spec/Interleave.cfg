CONSTANT G = 4
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Listed
CHECK_DEADLOCK FALSE
