CONSTANT Starts <- MyStarts
CONSTANT Step <- MyStep
INIT TraceInit
NEXT TraceNext
INVARIANT Finished
CHECK_DEADLOCK FALSE
