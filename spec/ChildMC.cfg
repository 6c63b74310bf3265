SPECIFICATION Spec
CONSTANTS Most = 4
INVARIANTS OnlyTheChild Once Truth Told Shown
PROPERTY Answered
CHECK_DEADLOCK FALSE
