SPECIFICATION Spec
INVARIANTS Right Zero
CHECK_DEADLOCK FALSE
CONSTANTS From = 0
To = 65535
