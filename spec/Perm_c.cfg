CONSTANTS
 Q = 5
 T = 2
 E = 3
 NF = 2
 NP = 1
 Salts = {0, 1, 2, 3}
 MdsOffset = 4
INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT Equal
INVARIANT Undone
INVARIANT RunIsDef
CHECK_DEADLOCK FALSE
