CONSTANT Most = 3
SPECIFICATION Spec
INVARIANT SameScan
INVARIANT Picture
CHECK_DEADLOCK FALSE
