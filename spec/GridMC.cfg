INIT Init
NEXT Next
CONSTANT Hops = 4
INVARIANT NoDrift
INVARIANT Exact
INVARIANT Emit
CHECK_DEADLOCK FALSE
