CONSTANT VD = 2
CONSTANT Dom = {"-1","0","1","2"}
INIT Init
NEXT Next
INVARIANT Group
INVARIANT Order
INVARIANT Turning
INVARIANT Texts
INVARIANT Visits
CHECK_DEADLOCK FALSE
