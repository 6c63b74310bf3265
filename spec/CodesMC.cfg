INIT Init
NEXT Next
INVARIANT Kept
INVARIANT Msg
INVARIANT Emit
CHECK_DEADLOCK FALSE
