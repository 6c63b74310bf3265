INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANT RoundTrip
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
