INIT Init
NEXT Next
CONSTANT MaxRecords = 1
CONSTANT MaxReads = 3
CONSTANT Two = TRUE
INVARIANT LastWins
INVARIANT Spoiled
INVARIANT NeedsStructure
INVARIANT Forgets
INVARIANT Emit
CHECK_DEADLOCK FALSE
