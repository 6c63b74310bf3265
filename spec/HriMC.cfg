CONSTANT NTurns = 4
SPECIFICATION Spec
INVARIANT Framing
INVARIANT AtEnd
INVARIANT Filled
INVARIANT Where
INVARIANT Labelled
CHECK_DEADLOCK FALSE
