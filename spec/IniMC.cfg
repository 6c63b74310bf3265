SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Distinct SavedBack LastLine Comments Blanks Later Lowered Cropped
CHECK_DEADLOCK FALSE
