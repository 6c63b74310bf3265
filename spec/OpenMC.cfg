INIT Init
NEXT Next
INVARIANTS OpenNeeds Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 2
