----------------------------- MODULE HritFile ------------------------------
(* One HRIT file: a primary header, header records, a data field.  A file is
   given as its header bytes `h' (a sequence) and its data field `d', a data
   descriptor [n, a, b, seed, patch] whose byte k is Byte(d, k): big data
   fields are never spelled out.
   Decode(h, total) is what a reader must make of the header of a file of
   `total' bytes; Message says what it must make of the data field.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Layout, Real64

At(b, k) == b[k + 1]                      \* the byte at offset k
U2(b, k) == At(b, k) * 256 + At(b, k + 1)
Cut(b, k, n) == SubSeq(b, k + 1, k + n)
\* a four byte number, when it is small; -1 stands for any number above 2^31
U4(b, k) == IF At(b, k) > 127 THEN -1 ELSE ((At(b, k) * 256 + At(b, k + 1)) * 256 + At(b, k + 2)) * 256 + At(b, k + 3)
UptoNul(s) == IF \E k \in DOMAIN s : s[k] = 0 THEN SubSeq(s, 1, (CHOOSE k \in DOMAIN s : s[k] = 0 /\ \A j \in 1..(k-1) : s[j] # 0) - 1) ELSE s

(* --- records ----------------------------------------------------------- *)
FixedLen(t) == CASE t = 1 -> 9 [] t = 2 -> 51 [] t = 4 -> 64 [] t = 5 -> 10 [] t = 7 -> 12 [] t = 128 -> 13 [] OTHER -> -1
KnownTypes == {1, 2, 3, 4, 5, 6, 7, 128, 129}

\* decimal numbers in projection names: [sign]digits[.digits], nothing else is specified
IsDigit(c) == c \in 48..57
RECURSIVE Digits(_, _)
Digits(s, acc) == IF s = <<>> THEN acc ELSE Digits(Tail(s), RAdd(RMul(acc, 10), Head(s) - 48))
Plain(s) ==
  LET u == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
      dots == {k \in DOMAIN u : u[k] = 46} IN
  /\ \A k \in DOMAIN u : IsDigit(u[k]) \/ u[k] = 46
  /\ Cardinality(dots) <= 1
  /\ \E k \in DOMAIN u : IsDigit(u[k])
Number(s) ==
  LET neg == Head(s) = 45
      u == IF Head(s) \in {43, 45} THEN Tail(s) ELSE s
      dot == IF \E k \in DOMAIN u : u[k] = 46 THEN CHOOSE k \in DOMAIN u : u[k] = 46 ELSE Len(u) + 1
      frac == Len(u) - dot
      m == Digits(SelectSeq(u, IsDigit), R("0"))
      v == IF frac > 0 THEN RDiv(m, RPow(10, frac)) ELSE m IN
  RFloat(IF neg THEN RNeg(v) ELSE v)
\* the text from offset k up to the first of the characters `ends' or NUL
Until(s, k, ends) == LET r == UptoNul(SubSeq(s, k + 1, Len(s)))
                         stop == {j \in DOMAIN r : r[j] \in ends} IN
                     IF stop = {} THEN r ELSE SubSeq(r, 1, (CHOOSE j \in stop : \A i \in stop : j <= i) - 1)
Has(s, k, c) == \E j \in DOMAIN UptoNul(SubSeq(s, k + 1, Len(s))) : UptoNul(SubSeq(s, k + 1, Len(s)))[j] = c

G == 71  P == 80  O == 79  M == 77  S == 83
PS == <<80, 83, 68>>
MERCATOR == <<77, 69, 82, 67, 65, 84, 79, 82>>

\* `ok' FALSE: the file must be refused.  Numbers whose text is not plain are <<>>: any value will do
Navig(r) ==
  LET nm == Cut(r, 3, 32)
      num(t) == IF Plain(t) THEN <<Number(t)>> ELSE <<>>
      base == [cfac |-> Cut(r, 35, 4), lfac |-> Cut(r, 39, 4), coff |-> Cut(r, 43, 4), loff |-> Cut(r, 47, 4)] IN
  IF nm[1] = G THEN [ok |-> TRUE, rec |-> base @@ [name |-> UptoNul(SubSeq(nm, 1, 4)), kind |-> "geos", nums |-> <<num(Until(nm, 5, {41}))>>]]
  ELSE IF nm[1] = P /\ nm[2] = O THEN
     IF ~Has(nm, 6, 44) THEN [ok |-> FALSE, rec |-> <<>>]
     ELSE LET first == Until(nm, 6, {44}) IN
          [ok |-> TRUE, rec |-> base @@ [name |-> UptoNul(SubSeq(nm, 1, 5)), kind |-> "polar",
                                         nums |-> <<num(first), num(Until(nm, 6 + Len(first) + 1, {41}))>>]]
  ELSE [ok |-> TRUE, rec |-> base @@ [name |-> IF nm[1] = P /\ nm[2] = S THEN PS ELSE IF nm[1] = M THEN MERCATOR ELSE <<>>, kind |-> "other", nums |-> <<>>]]

Annotation(r) == LET t == UptoNul(Cut(r, 3, 61)) IN
  [ok |-> Len(t) >= 59,
   rec |-> IF Len(t) < 59 THEN <<>> ELSE
     [all |-> t, channel |-> SubSeq(t, 1, 1), version |-> SubSeq(t, 3, 5), sc |-> SubSeq(t, 7, 12), p1 |-> SubSeq(t, 14, 25),
      p2 |-> SubSeq(t, 27, 35), p3 |-> SubSeq(t, 37, 45), p4 |-> SubSeq(t, 47, 58), flags |-> SubSeq(t, 60, Len(t))]]

Cds6(r, k) == [day |-> U2(r, k), ms |-> Cut(r, k + 2, 4)]
Quality(r, n) == [j \in 1..n |-> LET o == 3 + 13 * (j - 1) IN
    [line |-> Cut(r, o, 4), day |-> U2(r, o + 4), ms |-> Cut(r, o + 6, 4), valid |-> At(r, o + 10), radio |-> At(r, o + 11), geom |-> At(r, o + 12)]]

NoParts == [struct |-> <<>>, navig |-> <<>>, func |-> <<>>, annot |-> <<>>, time |-> <<>>, ancil |-> <<>>, key |-> <<>>, seg |-> <<>>, qual |-> <<>>]

\* one record into the parts found so far: a later record of a kind replaces an earlier one
Record(r, parts) ==
  LET t == At(r, 0) L == Len(r)
      good(p, v) == [ok |-> TRUE, parts |-> [parts EXCEPT ![p] = <<v>>]]
      bad == [ok |-> FALSE, parts |-> parts] IN
  IF t \notin KnownTypes \/ (FixedLen(t) # -1 /\ L # FixedLen(t)) THEN bad
  ELSE CASE t = 1 -> good("struct", [bpp |-> At(r, 3), cols |-> U2(r, 4), lines |-> U2(r, 6), compr |-> At(r, 8)])
         [] t = 2 -> LET n == Navig(r) IN IF n.ok THEN good("navig", n.rec) ELSE bad
         [] t = 3 -> good("func", UptoNul(Cut(r, 3, L - 3)))
         [] t = 4 -> LET a == Annotation(r) IN IF a.ok THEN good("annot", a.rec) ELSE bad
         [] t = 5 -> good("time", Cds6(r, 4))
         [] t = 6 -> IF L = 3 THEN bad ELSE good("ancil", UptoNul(Cut(r, 3, L - 3)))
         [] t = 7 -> good("key", [number |-> At(r, 3), seed |-> Cut(r, 4, 8)])
         [] t = 128 -> good("seg", [sc |-> U2(r, 3), chan |-> At(r, 5), seq |-> U2(r, 6), start |-> U2(r, 8), end |-> U2(r, 10), format |-> At(r, 12)])
         [] t = 129 -> IF parts.struct = <<>> \/ L < 3 + 13 * parts.struct[1].lines THEN bad ELSE good("qual", Quality(r, parts.struct[1].lines))

RECURSIVE Parse(_, _)
Parse(b, parts) ==
  IF b = <<>> THEN [ok |-> TRUE, parts |-> parts]
  ELSE IF Len(b) < 3 \/ U2(b, 1) < 3 \/ U2(b, 1) > Len(b) THEN [ok |-> FALSE, parts |-> parts]
  ELSE LET L == U2(b, 1) one == Record(SubSeq(b, 1, L), parts) IN
       IF one.ok THEN Parse(SubSeq(b, L + 1, Len(b)), one.parts) ELSE one

\* `h': the bytes of the file, or at least as many of them as its header has; `total': the size of the file
Refused == [ok |-> FALSE]
Decode(h, total) ==
  IF Len(h) < 16 THEN Refused
  ELSE IF At(h, 0) # 0 \/ U2(h, 1) # 16 THEN Refused
  ELSE IF U4(h, 4) < 16 \/ U4(h, 4) > total THEN Refused
  ELSE LET p == Parse(SubSeq(h, 17, U4(h, 4)), NoParts) IN
       IF p.ok THEN [ok |-> TRUE, type |-> At(h, 3), hlen |-> U4(h, 4), dlen |-> Cut(h, 8, 8), parts |-> p.parts] ELSE Refused

(* --- writing, for the models -------------------------------------------- *)
B2(n) == <<n \div 256, n % 256>>
B4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Rec(t, body) == <<t>> \o B2(Len(body) + 3) \o body
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Encode(type, recs, dbytes) ==
  LET body == Flatten(recs) IN <<0, 0, 16, type>> \o B4(16 + Len(body)) \o <<0, 0, 0, 0>> \o B4(dbytes * 8) \o body

(* --- data fields ----------------------------------------------------------- *)
\* the bytes of a file: some given ones, then a pattern with some places given; its data field starts `skip' bytes in
Pattern(d, k) == (k * d.a + (k \div 256) * d.b + d.seed) % 256
Patched(d, k) == IF \E p \in DOMAIN d.patch : d.patch[p].at <= k /\ k < d.patch[p].at + Len(d.patch[p].is)
              THEN LET p == CHOOSE p \in DOMAIN d.patch : d.patch[p].at <= k /\ k < d.patch[p].at + Len(d.patch[p].is) IN d.patch[p].is[k - d.patch[p].at + 1]
              ELSE Pattern(d, k)
Stream(d, k) == IF k < Len(d.lead) THEN d.lead[k + 1] ELSE Patched(d, k - Len(d.lead))
Byte(d, k) == Stream(d, k + d.skip)
\* the data field of the file of header bytes `head' followed by `d' (n bytes)
WholeFile(head, d) == [n |-> Len(head) + d.n, a |-> d.a, b |-> d.b, seed |-> d.seed, patch |-> d.patch, lead |-> head, skip |-> 0]
\* (only the patches that matter are looked at)
Near(d, k, n) == LET o == k + d.skip - Len(d.lead) IN [d EXCEPT !.patch = SelectSeq(d.patch, LAMBDA p : p.at < o + n /\ o < p.at + Len(p.is))]
Bytes(d, k, n) == LET e == Near(d, k, n) IN [j \in 1..n |-> Byte(e, k + j - 1)]

Contains(s, w) == \E k \in 0..(Len(s) - Len(w)) : \A j \in DOMAIN w : s[k + j] = w[j]
W(s) == CASE s = "MSG" -> <<77, 83, 71>> [] s = "GOES" -> <<71, 79, 69, 83>> [] s = "GMS" -> <<71, 77, 83>>
          [] s = "MTSAT" -> <<77, 84, 83, 65, 84>> [] s = "NOAA" -> <<78, 79, 65, 65>> [] s = "METOP" -> <<77, 69, 84, 79, 80>>
PrologueSize == SizeOfType("Prologue")
EpilogueSize == SizeOfType("Epilogue")
CommonLen == 46        \* the common part of the prologues of other satellites

\* the size of the data field in bytes, -1 if it is beyond any file
DataLen(hd) == LET b == hd.dlen IN
   IF b[1] # 0 \/ b[2] # 0 \/ b[3] # 0 \/ b[4] # 0 THEN -1
   ELSE ((b[5] * 256 + b[6]) * 256 + b[7]) * 32 + b[8] \div 8

(* `hd' the decoded header, `d' the data descriptor (d.n bytes are present).
   What the reader must make of the file: refused, or what it holds. *)
Message(hd, d) ==
  LET n == DataLen(hd)
      there == n # -1 /\ n <= d.n
      no == [ok |-> FALSE]
      p1 == IF hd.parts.annot = <<>> THEN <<>> ELSE hd.parts.annot[1].p1 IN
  CASE hd.type = 0 ->
         IF hd.parts.struct = <<>> \/ hd.parts.seg = <<>> \/ ~there THEN no
         ELSE IF hd.parts.struct[1].compr = 0 THEN [ok |-> TRUE, what |-> "samples", n |-> n \div 2]
         ELSE LET px == hd.parts.struct[1].cols * hd.parts.struct[1].lines IN
              \* the stand-in for the wavelet decoder: big-endian samples
              IF hd.parts.seg[1].format \notin {1, 2, 3} \/ n < 2 * px THEN no ELSE [ok |-> TRUE, what |-> "samples", n |-> px]
    [] hd.type \in {1, 144} -> IF hd.parts.annot = <<>> \/ ~there \/ (hd.type = 1 /\ n = 0) THEN no
                               ELSE [ok |-> TRUE, what |-> "dump", n |-> n]
    [] hd.type = 2 -> IF there /\ n > 0 THEN [ok |-> TRUE, what |-> "text", n |-> n] ELSE no
    [] hd.type = 3 -> IF there /\ n >= 197 /\ n \div 197 <= 65536 THEN [ok |-> TRUE, what |-> "keys", n |-> n \div 197] ELSE no
    [] hd.type = 128 ->
         IF hd.parts.annot = <<>> \/ ~there THEN no
         ELSE IF Contains(p1, W("MSG")) THEN IF n >= PrologueSize THEN [ok |-> TRUE, what |-> "prologue", n |-> n] ELSE no
         ELSE IF \E w \in {"GOES", "GMS", "MTSAT", "NOAA", "METOP"} : Contains(p1, W(w)) THEN
              IF n < CommonLen + 8 THEN no
              ELSE LET s == U4(Bytes(d, CommonLen + 4, 4), 0) IN
                   IF s < 8 \/ s > n - CommonLen THEN no ELSE [ok |-> TRUE, what |-> "sgs", n |-> s]
         ELSE [ok |-> TRUE, what |-> "nothing", n |-> 0]
    [] hd.type = 129 ->
         IF hd.parts.annot = <<>> \/ ~there THEN no
         ELSE IF Contains(p1, W("MSG")) THEN IF n >= EpilogueSize THEN [ok |-> TRUE, what |-> "epilogue", n |-> n] ELSE no
         ELSE [ok |-> TRUE, what |-> "nothing", n |-> 0]
    [] hd.type = 130 -> [ok |-> TRUE, what |-> "nothing", n |-> 0]
    [] OTHER -> no

\* what a field of type t shows, for the bytes `b' it has in the file
\* (of the 63 bytes of packed DCR values only the first 24 are kept)
Shown(t, b) == CASE t = "b1" -> <<IF b[1] # 0 THEN 1 ELSE 0>> [] t = "raw63" -> SubSeq(b, 1, 24) [] OTHER -> b
=============================================================================
