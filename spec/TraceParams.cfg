INIT Init
NEXT Next
INVARIANT Derived
CHECK_DEADLOCK FALSE
