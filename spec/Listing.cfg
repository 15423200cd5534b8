CONSTANT MemB <- FileB
CONSTANT MemW <- FileW
INIT Init
NEXT Next
VIEW Point
CHECK_DEADLOCK FALSE
