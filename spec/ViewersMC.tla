----------------------------- MODULE ViewersMC -----------------------------
(* Small products.  What the commands show is the image that line reads make. *)
EXTENDS Viewers
VARIABLES p, at
vars == <<p, at>>
Cov0 == [ls |-> 1, ln |-> 8064, le |-> 100, lw |-> 5667, us |-> 8065, un |-> 11136, ue |-> 2000, uw |-> 7567]
Products == {[hrv |-> h, cols |-> c, segl |-> n, end |-> 3, bpp |-> 8, mirrored |-> m, present |-> s, flat |-> f, cov |-> Cov0]
             : h \in BOOLEAN, c \in {1, 7}, n \in {1, 3}, m \in BOOLEAN, s \in {{1}, {3}, {1, 3}, 1..3}, f \in {<<>>, (2 :> 0) @@ (1 :> 9)}}
Init == p \in Products /\ at \in {0, 1, 2, 3, 8} \X {0, 1, 6}
Next == UNCHANGED vars
Here == at[1] < ImageH(p) /\ at[2] < ImageW(p)
\* the image drawn is the south end of the full disc, as lines are read
Drawing == Here /\ ~p.hrv /\ p.mirrored => ImageAt(p, at[1], at[2]) = LineOf(p, FullDisc - ImageH(p) + at[1])[at[2] + 1]
Discs == Here /\ ~p.hrv /\ p.mirrored => ImageAt(p, at[1], at[2]) = Disc(p, FullDisc - ImageH(p) + at[1], at[2])
\* the disc is what lines hold where lines start, and nothing around
Lines == \A n \in {0, 3703, 3706, 3711, 11127, 11135} : \A x \in {at[2], StartOf(p, n) + at[2]} :
    (n < Side(p)) => Disc(p, n, x) = LET c == x - StartOf(p, n) IN IF c \in 0..p.cols - 1 THEN LineOf(p, n)[c + 1] ELSE 0
\* every sample has an ink, darker for greater
InkNo(v, lo, hi) == CHOOSE k \in 1..8 : Inks[k] \in Ink(v, lo, hi)
ASSUME \A lo \in {0, 3}, w \in {1, 2, 7, 8, 9, 100} : \A v \in lo..lo + w :
    Ink(v, lo, lo + w) # {} /\ (v > lo => InkNo(v - 1, lo, lo + w) <= InkNo(v, lo, lo + w))
ASSUME \A lo \in {0, 3}, w \in {1, 2, 7, 8, 9, 100} : InkNo(lo, lo, lo + w) = 1 /\ InkNo(lo + w, lo, lo + w) = 8
\* the values of segments are all between the ends that are told
Between == at = <<0, 0>> => \A s \in p.present : LET vs == ValuesOf(p, s) IN
    \A l \in 0..p.segl - 1 : \A c \in 0..p.cols - 1 : Stored(p, s, l, c) \in Min(vs)..Max(vs)
\* with all the levels in a line the ends are enough
ASSUME \A b \in {8, 10} : LET q == [hrv |-> FALSE, cols |-> 1020, segl |-> 1, bpp |-> b] IN
    ValuesOf([q EXCEPT !.cols = Levels(q) - 1], 1) = {1, Levels(q) - 1} /\ {Stored(q, 3, 0, c) : c \in 0..Levels(q) - 2} = 1..Levels(q) - 1
=============================================================================
