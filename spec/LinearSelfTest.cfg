INIT Init
NEXT Next
INVARIANT AllAgree
CHECK_DEADLOCK FALSE
