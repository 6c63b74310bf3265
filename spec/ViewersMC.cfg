INIT Init
NEXT Next
INVARIANTS Drawing Discs Lines Between
