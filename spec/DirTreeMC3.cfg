CONSTANTS MaxOps = 3
INIT Init
NEXT Next
INVARIANTS Tree Laws AtomicSafe RmtreeSafe
CHECK_DEADLOCK FALSE
