CONSTANTS
  MemW <- ListW
  MemB <- ListB
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
