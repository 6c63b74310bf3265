INIT Init
NEXT Next
CONSTANT Tops = {"NativeHeader", "Epilogue", "PacketHeader", "LineHeader"}
INVARIANT Counted
INVARIANT Inside
INVARIANT Tiled
INVARIANT Emit
CHECK_DEADLOCK FALSE
