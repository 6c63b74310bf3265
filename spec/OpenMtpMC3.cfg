SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 5}
 NFiles = 3
INVARIANTS AtEnd Whole Apart Within Lengths Kinds
CHECK_DEADLOCK FALSE
