CONSTANTS
 Q = 11
 T = 3
 E = 7
 NF = 4
 NP = 3
 Salts = {1, 2}
 MdsOffset = 10
INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT Equal
INVARIANT Undone
INVARIANT RunIsDef
CHECK_DEADLOCK FALSE
