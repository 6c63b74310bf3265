SPECIFICATION Spec
CONSTANTS Most = 5
INVARIANTS OnlyTheChild Once Truth Told Shown
PROPERTY Answered
CHECK_DEADLOCK FALSE
