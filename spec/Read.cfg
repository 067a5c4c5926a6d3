SPECIFICATION Spec
CONSTANTS
  Portions <- PortionsDef
  MaxBuf = 3
  MaxEdits = 2
INVARIANTS AllBytes Never_more
PROPERTY Ends
CHECK_DEADLOCK FALSE
