CONSTANT MemB <- None
CONSTANT MemW <- None
INIT Init
NEXT Next
VIEW Point
CHECK_DEADLOCK FALSE
