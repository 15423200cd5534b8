INIT Init
NEXT Next
VIEW Point
INVARIANTS Opposite Implemented
CHECK_DEADLOCK FALSE
