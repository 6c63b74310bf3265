------------------------------ MODULE IniFile ------------------------------
(* Configuration files made of [sections] and `key = value' lines, and the
   dictionary they are read into.  Texts are sequences of character codes.
   A dictionary is a sequence of entries in the order they came: k is the name
   ("section:key", ":key" outside sections, "section" for the section itself),
   v the value, <<>> when there is none and <<text>> when there is. *)
EXTENDS Integers, Sequences, FiniteSets

LF == 10  Quote == 34  Tick == 39  Semi == 59  Hash == 35  Open == 91  Close == 93  Eq == 61  Colon == 58
Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(t) == [k \in DOMAIN t |-> Low(t[k])]
RECURSIVE Skip(_, _)
Skip(t, k) == IF k <= Len(t) /\ Blank(t[k]) THEN Skip(t, k + 1) ELSE k
Trim(t) == SubSeq(t, Skip(t, 1), Len(t))
RECURSIVE CropAt(_, _)
CropAt(t, n) == IF n > 0 /\ Blank(t[n]) THEN CropAt(t, n - 1) ELSE n
Crop(t) == SubSeq(t, 1, CropAt(t, Len(t)))
\* the position of the first of some characters from k on, one after the end if there is none
RECURSIVE Find(_, _, _)
Find(t, k, cs) == IF k > Len(t) \/ t[k] \in cs THEN k ELSE Find(t, k + 1, cs)
UpTo(t, k, cs) == SubSeq(t, k, Find(t, k, cs) - 1)

RECURSIVE LinesFrom(_, _)
LinesFrom(t, k) == IF k > Len(t) THEN <<>> ELSE LET e == Find(t, k, {LF}) IN <<SubSeq(t, k, IF e > Len(t) THEN Len(t) ELSE e)>> \o LinesFrom(t, e + 1)
Lines(t) == LinesFrom(t, 1)

Nothing == [t |-> "none", k |-> <<>>, v |-> <<>>]
\* what is right of the equals sign; the quotes hold comment marks and leading blanks
ValueOf(rest) ==
  LET v == Trim(rest)
      q == Len(v) > 1 /\ v[1] \in {Quote, Tick} /\ v[2] # v[1] IN
  IF v = <<>> THEN <<>>
  ELSE IF q THEN <<UpTo(v, 2, {v[1]})>>
  ELSE IF v[1] \in {Semi, Hash} THEN <<>>
  ELSE <<UpTo(v, 1, {Semi, Hash})>>
NoQuotes(v) == IF v \in {<<Quote, Quote>>, <<Tick, Tick>>} THEN <<>> ELSE v
LineOf(l) ==
  LET w == Trim(l) IN
  IF w = <<>> \/ w[1] \in {Semi, Hash} THEN Nothing
  ELSE IF w[1] = Open /\ Len(w) > 1 /\ w[2] # Close THEN [t |-> "section", k |-> Lower(UpTo(w, 2, {Close})), v |-> <<>>]
  ELSE LET e == Find(w, 1, {Eq}) IN
       IF e = 1 \/ e > Len(w) THEN Nothing
       ELSE LET v == ValueOf(SubSeq(w, e + 1, Len(w))) IN
            IF v = <<>> THEN Nothing
            ELSE [t |-> "entry", k |-> Lower(Crop(SubSeq(w, 1, e - 1))), v |-> <<NoQuotes(Crop(v[1]))>>]

\* ---- the dictionary
Has(d, k) == \E n \in DOMAIN d : d[n].k = k
At(d, k) == CHOOSE n \in DOMAIN d : d[n].k = k
Put(d, k, v) == IF Has(d, k) THEN [d EXCEPT ![At(d, k)].v = v] ELSE Append(d, [k |-> k, v |-> v])
Drop(d, k) == SelectSeq(d, LAMBDA e : e.k # k)
Get(d, k) == d[At(d, k)].v
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(ls, n, sec, d) ==
  IF n > Len(ls) THEN d
  ELSE LET x == LineOf(ls[n]) IN
       CASE x.t = "none" -> ReadFrom(ls, n + 1, sec, d)
         [] x.t = "section" -> ReadFrom(ls, n + 1, x.k, Put(d, x.k, <<>>))
         [] OTHER -> ReadFrom(ls, n + 1, sec, Put(d, sec \o <<Colon>> \o x.k, x.v))
Read(t) == ReadFrom(Lines(t), 1, <<>>, <<>>)

IsSection(k) == \A n \in DOMAIN k : k[n] # Colon
Sections(d) == SelectSeq(d, LAMBDA e : IsSection(e.k))
AsSet(d) == {<<d[n].k, d[n].v>> : n \in DOMAIN d}

\* ---- numbers
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE NumFrom(_, _, _)
NumFrom(t, k, acc) == IF k <= Len(t) /\ IsDigit(t[k]) THEN NumFrom(t, k + 1, (acc * 10) + (t[k] - 48)) ELSE <<acc, k>>
SignAt(t, k) == IF k <= Len(t) /\ t[k] \in {43, 45} THEN k + 1 ELSE k
Neg(t, k) == k <= Len(t) /\ t[k] = 45
IntOf(t) == LET s == Skip(t, 1) n == NumFrom(t, SignAt(t, s), 0)[1] IN IF Neg(t, s) THEN 0 - n ELSE n
\* decimal numbers, in thousandths; up to three digits after the point
Pow10(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE 1000
MilliOf(t) ==
  LET s == Skip(t, 1)
      i == NumFrom(t, SignAt(t, s), 0)
      p == IF i[2] <= Len(t) /\ t[i[2]] = 46 THEN NumFrom(t, i[2] + 1, 0) ELSE <<0, i[2] + 1>>
      m == (i[1] * 1000) + (p[1] * (1000 \div Pow10((p[2] - i[2]) - 1))) IN
  IF Neg(t, s) THEN 0 - m ELSE m
\* whether a text is one of those, or no number at all
Decimal(t) ==
  LET s == Skip(t, 1) a == SignAt(t, s) i == NumFrom(t, a, 0)
      e == IF i[2] <= Len(t) /\ t[i[2]] = 46 THEN NumFrom(t, i[2] + 1, 0)[2] ELSE i[2] IN
  /\ (i[2] - a) <= 6 /\ (e - i[2]) <= 4
  /\ e > Len(t) \/ t[e] \notin {46, 69, 101, 88, 120, 80, 112, 73, 105, 78, 110}
BoolOf(t, other) == IF t = <<>> THEN other
                    ELSE IF t[1] \in {121, 89, 49, 116, 84} THEN 1 ELSE IF t[1] \in {110, 78, 48, 102, 70} THEN 0 ELSE other

\* ---- saving: entries outside sections first, then each section with its own; what has no value or no section is not saved
Begins(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Saved(d) ==
  {<<e[1], <<>>>> : e \in {x \in AsSet(d) : IsSection(x[1])}} \union
  {e \in AsSet(d) : /\ e[2] # <<>> /\ ~IsSection(e[1])
                    /\ e[1][1] = Colon \/ \E n \in DOMAIN d : IsSection(d[n].k) /\ d[n].k # <<>> /\ Begins(e[1], d[n].k \o <<Colon>>)}
\* values that a line can hold
Holds(t, cs) == \E n \in DOMAIN t : t[n] \in cs
Bare(v) == v # <<>> /\ ~Blank(v[1]) /\ v[1] \notin {Quote, Tick} /\ ~Holds(v, {Semi, Hash})
Storable(v) == /\ Crop(v) = v /\ ~Holds(v, {LF}) /\ v \notin {<<Quote, Quote>>, <<Tick, Tick>>}
               /\ Bare(v) \/ ~Holds(v, {Quote}) \/ ~Holds(v, {Tick})
\* names that a line can hold
KeyFits(t) == /\ t # <<>> /\ ~Blank(t[1]) /\ Crop(t) = t /\ t[1] \notin {Semi, Hash} /\ ~Holds(t, {Eq, LF})
              /\ t[1] = Open => (Len(t) > 1 /\ t[2] = Close)
SecFits(t) == ~Holds(t, {Close, LF})
NameFits(k) == IF IsSection(k) THEN k # <<>> /\ SecFits(k) ELSE LET c == Find(k, 1, {Colon}) IN SecFits(SubSeq(k, 1, c - 1)) /\ KeyFits(SubSeq(k, c + 1, Len(k)))
CanSave(d) == \A n \in DOMAIN d : NameFits(d[n].k) /\ (d[n].v = <<>> \/ Storable(d[n].v[1]))
ValueText(v) == IF Bare(v) THEN v ELSE IF ~Holds(v, {Quote}) THEN <<Quote>> \o v \o <<Quote>> ELSE <<Tick>> \o v \o <<Tick>>
RECURSIVE EntriesText(_, _, _)
EntriesText(d, p, n) ==
  IF n > Len(d) THEN <<>>
  ELSE (IF Begins(d[n].k, p) /\ d[n].v # <<>> THEN SubSeq(d[n].k, Len(p) + 1, Len(d[n].k)) \o <<32, Eq, 32>> \o ValueText(d[n].v[1]) \o <<LF>> ELSE <<>>)
       \o EntriesText(d, p, n + 1)
RECURSIVE SectionsText(_, _, _)
SectionsText(d, s, n) == IF n > Len(s) THEN <<>>
  ELSE <<LF, Open>> \o s[n].k \o <<Close, LF>> \o EntriesText(d, s[n].k \o <<Colon>>, 1) \o SectionsText(d, s, n + 1)
SaveText(d) == EntriesText(d, <<Colon>>, 1) \o SectionsText(d, Sections(d), 1)
=============================================================================
