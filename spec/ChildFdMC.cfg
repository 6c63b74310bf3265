SPECIFICATION Spec
CONSTANT Odd <- OddConfigs
INVARIANTS Standard OnlyPassed Passed Ends Parents Shown
CHECK_DEADLOCK FALSE
