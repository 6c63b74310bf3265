SPECIFICATION Spec
CONSTANTS Most = 6
INVARIANTS OnlyTheChild Once Truth Told Shown
PROPERTY Answered
CHECK_DEADLOCK FALSE
