INIT Init
NEXT Next
INVARIANT SelfTest
CHECK_DEADLOCK FALSE
