CONSTANT MaxTokens = 5
INIT Init
NEXT Next
INVARIANTS Sound Bounded Emit
CHECK_DEADLOCK FALSE
