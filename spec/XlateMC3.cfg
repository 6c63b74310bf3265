INIT Init
NEXT Next
INVARIANTS Faithful Inside SameSizeExact Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 3
