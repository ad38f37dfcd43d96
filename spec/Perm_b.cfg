CONSTANTS
 Q = 7
 T = 3
 E = 5
 NF = 2
 NP = 2
 Salts = {1}
 MdsOffset = 6
INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT Equal
INVARIANT Undone
INVARIANT RunIsDef
CHECK_DEADLOCK FALSE
