SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS Described Own Forgets Emit
CHECK_DEADLOCK FALSE
