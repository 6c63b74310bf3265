INIT Init
NEXT Next
CONSTANT MaxRecords = 3
CONSTANT MaxReads = 1
CONSTANT Two = FALSE
INVARIANT LastWins
INVARIANT Spoiled
INVARIANT NeedsStructure
INVARIANT Forgets
INVARIANT CutRefused
INVARIANT Emit
CHECK_DEADLOCK FALSE
