CONSTANT VD = 3
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
