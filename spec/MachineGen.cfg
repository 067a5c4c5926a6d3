CONSTANT NR = 11
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
