----------------------------- MODULE LayoutMC ------------------------------
(* A walk over every record of prologue and epilogue, field by field: the
   fields tile the data field, and every leaf is visited at its first and last
   elements. *)
EXTENDS Layout, TLC, Json
CONSTANTS Tops
VARIABLES top, path, at    \* where the walk is, and the offset it has reached by counting
vars == <<top, path, at>>

TypeHere == IF path = <<>> THEN top ELSE TypeAt(top, path)
Ends(n) == {0, n - 1}
RECURSIVE Corners(_)
Corners(dims) == IF dims = <<>> THEN {<<>>} ELSE {<<a>> \o t : a \in Ends(Head(dims)), t \in Corners(Tail(dims))}

Init == top \in Tops /\ path = <<>> /\ at = 0
Down == /\ TypeHere \in Records
        /\ \E k \in DOMAIN Fields(TypeHere) :
             LET f == Fields(TypeHere)[k] IN
             /\ f.name # ""
             /\ \E i \in Corners(f.dims) :
                  /\ path' = Append(path, [f |-> f.name, i |-> i])
                  /\ at' = at + StepOffset(TypeHere, [f |-> f.name, i |-> i])
        /\ UNCHANGED top
Next == Down
\* the offset counted on the way is the offset of the path, and the leaf lies within the record
Counted == at = Offset(top, path)
Inside == at + SizeOfType(TypeHere) <= SizeOfType(top)
\* fields of one record do not overlap and leave no gaps
Tiled == TypeHere \in Records =>
   SizeOfType(TypeHere) = SizeOfFields(Fields(TypeHere))
Emit == (TypeHere \notin Records) => PrintT("@E " \o ToJson([top |-> top, path |-> path]))
=============================================================================
