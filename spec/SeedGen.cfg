INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3, 4, 5, 6, 7}
  Seeds = {1, 2, 9}
  MaxSets = 2
INVARIANTS Exclusive
CHECK_DEADLOCK FALSE
