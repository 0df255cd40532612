CONSTANT VD = 2
CONSTANT Law = "C01"
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
