INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT RoundTrip
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
