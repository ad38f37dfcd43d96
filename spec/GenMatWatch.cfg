INIT InitWatch
NEXT NextWatch
CHECK_DEADLOCK FALSE
