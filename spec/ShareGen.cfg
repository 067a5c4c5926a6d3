INIT Init
NEXT Next
INVARIANT WindowsInside
CHECK_DEADLOCK FALSE
