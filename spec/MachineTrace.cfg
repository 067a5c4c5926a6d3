CONSTANT NR = 11
INIT Init
NEXT Next
INVARIANT Conform Inv
POSTCONDITION Consumed_All
CHECK_DEADLOCK FALSE
