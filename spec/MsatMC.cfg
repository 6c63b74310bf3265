INIT Init
NEXT Next
INVARIANTS Decided OneByOne Shape Named
CHECK_DEADLOCK FALSE
