SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 3}
 NFiles = 2
INVARIANTS AtEnd Whole Apart Within Lengths Kinds
CHECK_DEADLOCK FALSE
