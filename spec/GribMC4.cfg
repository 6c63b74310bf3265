INIT Init
NEXT Next
INVARIANTS SameValues SamePlace SameIdentity Settled Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 4
