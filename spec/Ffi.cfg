INIT Init
NEXT Next
INVARIANT Same
VIEW Point
CHECK_DEADLOCK FALSE
