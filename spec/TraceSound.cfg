INIT Init
NEXT Next
INVARIANT Determined
CHECK_DEADLOCK FALSE
