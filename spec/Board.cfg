CONSTANT MemB <- BoardB
CONSTANT MemW <- BoardW
INIT Init
NEXT Next
VIEW Point
CHECK_DEADLOCK FALSE
