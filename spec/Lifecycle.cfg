CONSTANT N = 2
CONSTANT MaxP = 3
CONSTANT MaxWork = 3
CONSTANT Native = FALSE
CONSTANT Kinds = {"none", "split", "quit", "travel"}
SPECIFICATION Spec
INVARIANT Safe
INVARIANT Alone
INVARIANT Quiet
PROPERTY Ends
