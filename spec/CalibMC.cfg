INIT Init
NEXT Next
INVARIANTS Sane PlanckInverse
PROPERTY Rising
CHECK_DEADLOCK FALSE
CONSTANTS MaxCount = 1023
