CONSTANTS MaxOps = 2
INIT Init
NEXT Next
INVARIANTS Tree Laws AtomicSafe RmtreeSafe Emit
CHECK_DEADLOCK FALSE
