CONSTANTS
 Q = 13
 T = 3
 E = 11
 NF = 2
 NP = 4
 Salts = {1, 5}
 MdsOffset = 12
INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT Equal
INVARIANT Undone
INVARIANT RunIsDef
CHECK_DEADLOCK FALSE
