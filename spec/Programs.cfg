CONSTANT VD = 2
CONSTANT Suite = "queue"
CONSTANT MaxLen = 3
CONSTANT Turns = 10
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Ends
INVARIANT Total
INVARIANT Suited
PROPERTY Steps
CHECK_DEADLOCK FALSE
