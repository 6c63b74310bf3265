------------------------------ MODULE XlateMC ------------------------------
(* Requests applied one on the result of the other: what they mean together. *)
EXTENDS Raster, Json
CONSTANTS MaxOps
VARIABLES d, hist, failed
vars == <<d, hist, failed>>
Start == MemDataset([xs |-> 4, ys |-> 3, nb |-> 2, mod |-> 251, type |-> "UInt16", gt |-> <<100, 10, 0, 500, 0, -20>>,
                     dt |-> "", jday |-> 0, hour |-> 0, scid |-> "", sc |-> "", chan |-> "", chid |-> "", nchan |-> 0])
Wins == {<<0, 0, 4, 3>>, <<0, 0, 0, 0>>, <<1, 0, 3, 3>>, <<0, 1, 2, 2>>, <<1, 1, 1, 1>>, <<2, 2, 2, 1>>, <<-1, 0, 2, 2>>, <<0, 0, 5, 1>>,
         <<0, 0, 0, 2>>, <<3, 2, 1, 1>>, <<0, 0, 2, 3>>}
N(a, b) == <<[pct |-> FALSE, n |-> a], [pct |-> FALSE, n |-> b]>>
P(a, b) == <<[pct |-> TRUE, n |-> a], [pct |-> TRUE, n |-> b]>>
Sizes == {N(2, 3), N(4, 6), N(0, 1), P(50, 100), P(200, 200), P(10, 10)}
Bands == {<<1, 2>>, <<2>>, <<2, 1>>, <<3>>, <<1, 1, 2>>}
Reqs == {[srcwin |-> w] : w \in Wins} \cup {[size |-> z] : z \in Sizes} \cup {[bands |-> b] : b \in Bands}
        \cup {[srcwin |-> w, size |-> z] : w \in {<<1, 0, 2, 2>>, <<0, 1, 3, 2>>}, z \in Sizes}
        \cup {[projwin |-> <<110, 480, 130, 440>>], [projwin |-> <<100, 500, 140, 440>>], [projwin |-> <<90, 500, 110, 440>>]}
        \cup {[scale |-> <<0, 250, 0, 125>>, bands |-> <<2>>], [nodata |-> 7], [ot |-> "Float32"], [ullr |-> <<0, 0, 8, -6>>]}
Init == d = Start /\ hist = <<>> /\ failed = FALSE
Next == /\ Len(hist) < MaxOps /\ ~failed
        /\ \E r \in Reqs : LET t == Translated(d, r) IN
              /\ hist' = Append(hist, r)
              /\ failed' = ~Good(t)
              /\ d' = IF Good(t) THEN t ELSE d
\* where a pixel of the result lies on the ground, in pixels of the start
Moved == \E k \in 1..Len(hist) : Has(hist[k], "ullr")
Ground(x, y) == <<RDiv(RSub(RAdd(d.gt[1], RMul(d.gt[2], x)), 100), 10), RDiv(RSub(RAdd(d.gt[4], RMul(d.gt[6], y)), 500), -20)>>
\* every pixel of the result may have the value of the start's pixel under its centre
Faithful == (~failed /\ ~Moved) =>
    \A x \in 0..d.xs - 1, y \in 0..d.ys - 1 :
        LET a == Ground(x, y)
            b == Ground(x + 1, y + 1)
            \* the middle, away from any border by the nature of the sizes above
            cx == RInt(RFloor(RDiv(RAdd(a[1], b[1]), 2)))
            cy == RInt(RFloor(RDiv(RAdd(a[2], b[2]), 2)))
            scaled == \E k \in 1..Len(hist) : Has(hist[k], "scale")
            retyped == FALSE
        IN /\ cx \in 0..3 /\ cy \in 0..2
           /\ \A k \in 1..Len(d.bands) : Px(d, k, x, y) # {}
           /\ ~scaled => \A k \in 1..Len(d.bands) : \E c \in 1..2 : R(Pattern(c, cx, cy, 251)) \in Px(d, k, x, y)
Inside == d.xs > 0 /\ d.ys > 0
SameSizeExact == (~failed /\ \A k \in 1..Len(hist) : ~Has(hist[k], "size") /\ ~Has(hist[k], "scale")) => \A k \in 1..Len(d.bands), x \in 0..d.xs - 1, y \in 0..d.ys - 1 : Cardinality(Px(d, k, x, y)) = 1
Emit == (hist # <<>> /\ (failed \/ Len(hist) = MaxOps)) => PrintT("@E " \o ToJson(hist))
=============================================================================
