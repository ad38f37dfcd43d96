CONSTANTS
 Q = 11
 T = 2
 E = 3
 NF = 4
 NP = 3
 Salts = {0, 1, 2}
 MdsOffset = 0
INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT Equal
INVARIANT Undone
INVARIANT RunIsDef
CHECK_DEADLOCK FALSE
