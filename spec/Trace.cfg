CONSTANTS
  MemW <- RecW
  MemB <- RecB
INIT Init
NEXT Next
VIEW Point
CHECK_DEADLOCK FALSE
