CONSTANTS
 Ids = {"a", "b"}
 Depth = 4
INIT Init
NEXT Next
INVARIANT Functional
INVARIANT Shows
CHECK_DEADLOCK FALSE
