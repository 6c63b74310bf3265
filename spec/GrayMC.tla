------------------------------- MODULE GrayMC -------------------------------
(* The gray images of small bands: the levels the values may have, by laws
   that do not repeat the formula, and the size of images.                 *)
EXTENDS MsatTool
VARIABLES of, miss, asked, at
vars == <<of, miss, asked, at>>
P == 1..3
Vals == {-3, 0, 1, 20, 300}
Tones == {0, 1, 2, 13, 84, 85, 127, 128, 170, 216, 253, 254, 255}
Seen == {p \in P : ~(of[p] \in miss)}
Req == [action |-> "png"] @@ (IF asked = <<>> THEN None ELSE [stretch |-> asked])
Init == /\ of \in [P -> Vals] /\ miss \in {{}, {0}, {300}} /\ Seen # {}
        /\ asked \in {<<>>, <<0, 20>>, <<-3, 2>>, <<30, 40>>, <<7, 7>>}
        /\ at = <<0, 0, 0>>
        \* only images that may be
Next == /\ at = <<0, 0, 0>> /\ at' \in [P -> Tones] /\ LevelsOK(of, Seen, Req, at') /\ UNCHANGED <<of, miss, asked>>
Drawn == at # <<0, 0, 0>>
Lo == Ends(of, Seen, Req)[1]
Hi == Ends(of, Seen, Req)[2]
\* a larger value is never darker (but for rounding), equal values are alike, and the ends are black and white
Monotone == (Drawn /\ RLt(Lo, Hi)) => \A p, q \in Seen : of[p] <= of[q] => at[p] <= at[q] + 2
EndsOK == (Drawn /\ RLt(Lo, Hi)) => \A p \in Seen : (RLe(of[p], Lo) => at[p] <= 1) /\ (RLe(Hi, of[p]) => at[p] >= 254)
Flattened == (Drawn /\ ~RLt(Lo, Hi)) => \A p, q \in Seen : of[p] = of[q] => at[p] = at[q]
\* missing pixels do not change the others
Only(f, S) == [p \in S |-> f[p]]
Unswayed == Drawn => LevelsOK(Only(of, Seen), Seen, Req, Only(at, Seen))
\* reversed, it is not the image (unless all of it is the same gray)
NotReversed == (Drawn /\ RLt(Lo, Hi) /\ \E p \in Seen : at[p] > 130 \/ at[p] < 125) => ~LevelsOK(of, Seen, Req, [p \in P |-> 255 - at[p]])
Fits == \A z \in {<<1280, 1280>>, <<1281, 1280>>, <<1281, 1>>, <<1, 5000>>, <<2560, 2560>>, <<11136, 11136>>, <<3712, 3712>>, <<2000, 20>>, <<3000, 1500>>} :
    \A o \in Capped([xs |-> z[1], ys |-> z[2]]) :
        /\ o[1] \in 1..Cap /\ o[2] \in 1..Cap
        /\ (z[1] > Cap \/ z[2] > Cap) => Cap \in {o[1], o[2]}
        \* the same shape, as far as whole pixels go
        /\ (o[1] > 1 => (o[1] - 1) * z[2] <= (o[2] + 1) * z[1])
        /\ (o[2] > 1 => (o[2] - 1) * z[1] <= (o[1] + 1) * z[2])
ASSUME Fits
=============================================================================
