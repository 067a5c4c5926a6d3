INIT Init
NEXT Next
INVARIANT Valid
CHECK_DEADLOCK FALSE
