CONSTANTS NSeg = 4  MaxReads = 4  Present = {{1,2,3,4}, {2,3,4}, {1,4}}
INIT Init
NEXT Next
INVARIANTS Bounded OnlyPresent Transparent Emit
CHECK_DEADLOCK FALSE
