CONSTANT VD = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
