INIT Init
NEXT Next
INVARIANTS Back Twice Singular Emit
CHECK_DEADLOCK FALSE
