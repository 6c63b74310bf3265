------------------------------ MODULE DbViewMC ------------------------------
(* Small scenes, scanned either way: the picture is the scene. *)
EXTENDS DbView
CONSTANT Most
VARIABLES w, h, way, scene, sent
vars == <<w, h, way, scene, sent>>
\* the scan line by line
Init == /\ w \in 1..Most /\ h \in 1..Most /\ way \in BOOLEAN
        /\ scene \in [1..h -> [1..w -> 0..1]]
        /\ sent = <<>>
Place(l) == IF way THEN l ELSE h + 1 - l
Line(l) == IF way THEN scene[Place(l)] ELSE [c \in 1..w |-> scene[Place(l)][w + 1 - c]]
Next == Len(sent) < w * h /\ sent' = sent \o Line((Len(sent) \div w) + 1) /\ UNCHANGED <<w, h, way, scene>>
Spec == Init /\ [][Next]_vars
Done == Len(sent) = w * h
SameScan == Done => sent = Scan(scene, w, h, way)
Picture == Done => \A y \in 0..h - 1, x \in 0..w - 1 : CountAt(sent, w, h, way, y, x) = scene[y + 1][x + 1]
=============================================================================
