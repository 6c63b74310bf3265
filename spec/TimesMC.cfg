INIT Init
NEXT Next
INVARIANT CivilIsCounted
INVARIANT NumberIsCounted
INVARIANT YearDay
INVARIANT Spelled
INVARIANT Emit
CHECK_DEADLOCK FALSE
