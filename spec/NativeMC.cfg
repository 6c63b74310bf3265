INIT Init
NEXT Next
CONSTANT Depth = 6
INVARIANT Decided
INVARIANT Sound
INVARIANT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
