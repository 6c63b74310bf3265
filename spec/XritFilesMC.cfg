CONSTANT N = 12
INIT Init
NEXT Next
INVARIANTS OwnNames Exact Ordered Emit
CHECK_DEADLOCK FALSE
