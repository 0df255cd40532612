CONSTANT VD = 6
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
