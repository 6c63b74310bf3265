INIT Init
NEXT Next
INVARIANTS Monotone EndsOK Flattened Unswayed NotReversed
CHECK_DEADLOCK FALSE
