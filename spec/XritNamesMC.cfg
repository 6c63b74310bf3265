CONSTANT MaxTokens = 4
INIT Init
NEXT Next
INVARIANTS Sound Bounded Emit
CHECK_DEADLOCK FALSE
