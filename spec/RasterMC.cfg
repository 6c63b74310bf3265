CONSTANTS Slots = {1, 2}  Products = {"a", "b"}  Rows = {0, 1, 2, 4}  MaxOps = 5
INIT Init
NEXT Next
INVARIANTS Faithful CacheBound Emit
CHECK_DEADLOCK FALSE
