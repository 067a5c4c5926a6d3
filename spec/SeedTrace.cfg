INIT Init
NEXT Next
INVARIANT Conform
POSTCONDITION Consumed_All
CHECK_DEADLOCK FALSE
