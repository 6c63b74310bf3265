SPECIFICATION Spec
VIEW View
INVARIANTS NeverBoth Honest Freed
CHECK_DEADLOCK FALSE
CONSTANT Last <- LastMC
