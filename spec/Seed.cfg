SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Seeds = {1, 2}
  MaxSets = 2
INVARIANTS Exclusive Prefix
PROPERTIES Refines AllServed
CHECK_DEADLOCK TRUE
