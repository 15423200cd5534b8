INIT Init
NEXT Next
VIEW Point
CHECK_DEADLOCK FALSE
