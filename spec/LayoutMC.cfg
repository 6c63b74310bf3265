INIT Init
NEXT Next
CONSTANT Tops = {"Prologue", "Epilogue"}
INVARIANT Counted
INVARIANT Inside
INVARIANT Tiled
INVARIANT Emit
CHECK_DEADLOCK FALSE
