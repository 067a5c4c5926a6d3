SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  MaxHandles = 6
INVARIANTS NotWhileHeld Once NoLeak CountRight
CHECK_DEADLOCK TRUE
