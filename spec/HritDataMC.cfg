INIT Init
NEXT Next
INVARIANT Readable
INVARIANT Backed
INVARIANT Short
INVARIANT Extra
INVARIANT Emit
CHECK_DEADLOCK FALSE
