SPECIFICATION Spec
INVARIANTS AsAsked Apart
CHECK_DEADLOCK FALSE
