SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS Described Own Forgets Emit
CHECK_DEADLOCK FALSE
