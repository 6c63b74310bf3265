----------------------------- MODULE XritNames -----------------------------
(* How a product is named.  A name is a sequence of character codes.  Two forms
   designate the same product:
     short     [directory/]resolution:product1:product2:time
     segment   [directory/]resolution-nnn-xxxxxx-product1-product2-segment-time-C_
   where the fixed-width fields of the segment form are padded with '_'.     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Slash == 47
Colon == 58
Dash == 45
Pad == 95
Dot == 46
CSuffix == <<45, 67, 95>>            \* "-C_"

\* positions of character c in s from position b on
Pos(s, c, b) == {p \in b..Len(s) : s[p] = c}
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
EndsWith(s, t) == Len(s) >= Len(t) /\ Sub(s, Len(s) - Len(t) + 1, Len(s)) = t

BaseStart(s) == LET P == Pos(s, Slash, 1) IN IF P = {} THEN 1 ELSE Max(P) + 1
DirOf(s) == LET b == BaseStart(s) IN
            IF b = 1 THEN <<Dot>> ELSE IF b = 2 THEN <<Slash>> ELSE Sub(s, 1, b - 2)

IsSegmentForm(s) == EndsWith(s, CSuffix)
\* recognised as naming a product, before looking at any file
Recognised(s) == Len(s) >= 3 /\ (IsSegmentForm(s) \/ Cardinality(Pos(s, Colon, BaseStart(s))) >= 3)

\* a padded field: trailing '_' are padding (a field that is all padding keeps its first)
RECURSIVE Unpad(_)
Unpad(s) == IF Len(s) > 1 /\ s[Len(s)] = Pad THEN Unpad(Sub(s, 1, Len(s) - 1)) ELSE s

\* Splits s from position b at the first n occurrences of c: n fields, or fails
RECURSIVE Fields(_, _, _, _)
Fields(s, b, c, n) ==
    IF n = 0 THEN [ok |-> TRUE, f |-> <<>>, rest |-> b]
    ELSE LET P == Pos(s, c, b) IN
         IF P = {} THEN [ok |-> FALSE, f |-> <<>>, rest |-> b]
         ELSE LET e == Min(P)
                  r == Fields(s, e + 1, c, n - 1)
              IN [ok |-> r.ok, f |-> <<Sub(s, b, e - 1)>> \o r.f, rest |-> r.rest]

Refused == [ok |-> FALSE]
Product(d, r, p1, p2, t) == [ok |-> TRUE, dir |-> d, res |-> r, p1 |-> p1, p2 |-> p2, time |-> t]

Parse(s) ==
    IF Len(s) < 3 THEN Refused
    ELSE LET b == BaseStart(s) IN
         IF IsSegmentForm(s)
         THEN LET q == Fields(s, b, Dash, 7) IN
              IF ~q.ok THEN Refused
              ELSE Product(DirOf(s), q.f[1], Unpad(q.f[4]), Unpad(q.f[5]), Unpad(q.f[7]))
         ELSE LET q == Fields(s, b, Colon, 3) IN
              IF ~q.ok THEN Refused
              ELSE Product(DirOf(s), q.f[1], q.f[2], q.f[3], Sub(s, q.rest, Len(s)))

\* A complete designation has all five parts
Complete(p) == p.dir # <<>> /\ p.res # <<>> /\ p.p1 # <<>> /\ p.p2 # <<>> /\ p.time # <<>>
\* The same product, another channel
OtherChannel(p, c) == [p EXCEPT !.p2 = c]

\* --- writing names -------------------------------------------------------
PadTo(s, n) == IF Len(s) >= n THEN Sub(s, 1, n) ELSE s \o [k \in 1..(n - Len(s)) |-> Pad]
DirPrefix(d) == IF d = <<Dot>> THEN <<>> ELSE IF d = <<Slash>> THEN <<Slash>> ELSE d \o <<Slash>>
Short(p) == DirPrefix(p.dir) \o p.res \o <<Colon>> \o p.p1 \o <<Colon>> \o p.p2 \o <<Colon>> \o p.time
Segment(p, nnn, sat, seg) ==
    DirPrefix(p.dir) \o p.res \o <<Dash>> \o nnn \o <<Dash>> \o sat \o <<Dash>> \o PadTo(p.p1, 12)
    \o <<Dash>> \o PadTo(p.p2, 9) \o <<Dash>> \o seg \o <<Dash>> \o p.time \o CSuffix

\* --- files of a product in a directory (a set of base names) ---------------
PRO == <<80, 82, 79>>
EPI == <<69, 80, 73>>
\* base name: res-???-??????-pad12(p1)-pad9(x)-pad9(y)-time-zz ; '?' is any one character
Matches(n, p, f5, f6, tail) ==
    LET L == Len(p.res)
        T == Len(p.time)
    IN /\ Len(n) = L + 1 + 3 + 1 + 6 + 1 + 12 + 1 + 9 + 1 + 9 + 1 + T + 3
       /\ Sub(n, 1, L) = p.res
       /\ n[L + 1] = Dash /\ n[L + 5] = Dash /\ n[L + 12] = Dash
       /\ Sub(n, L + 13, L + 24) = PadTo(p.p1, 12)
       /\ n[L + 25] = Dash
       /\ Sub(n, L + 26, L + 34) = f5
       /\ n[L + 35] = Dash
       /\ f6[1] = "is" => Sub(n, L + 36, L + 44) = f6[2]
       /\ f6[1] = "segment" => n[L + 36] = 48 /\ Sub(n, L + 42, L + 44) = <<Pad, Pad, Pad>>
       /\ n[L + 45] = Dash
       /\ Sub(n, L + 46, L + 45 + T) = p.time
       /\ Sub(n, L + 46 + T, Len(n)) = tail

Prologues(files, p) == {n \in files : Matches(n, p, PadTo(<<>>, 9), <<"is", PadTo(PRO, 9)>>, <<Dash, Pad, Pad>>)}
Epilogues(files, p) == {n \in files : Matches(n, p, PadTo(<<>>, 9), <<"is", PadTo(EPI, 9)>>, <<Dash, Pad, Pad>>)}
Segments(files, p) == {n \in files : Matches(n, p, PadTo(p.p2, 9), <<"segment">>, CSuffix)}

\* the one companion file, or no answer
TheOnly(S) == IF Cardinality(S) = 1 THEN [ok |-> TRUE, name |-> CHOOSE x \in S : TRUE] ELSE [ok |-> FALSE]

RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Sorted(S) == SetToSortSeq(S, Before)
=============================================================================
