---------------------------- MODULE NativeFile -----------------------------
(* Meteosat second generation images in the native format of the archive.
   A file is a data descriptor of HritFile (n bytes: a pattern with patches).
     U-MARF header     48 texts "name : value" in 5114 bytes
     packet header     38 bytes; level 1.5 header, with a version byte
     the lines of the image, one packet per channel and line (three for HRV)
     packet header     38 bytes; level 1.5 trailer, with a version byte
   where lines and trailer are is in the texts.
   Content(f) is what a reader must make of file f: [ok |-> FALSE] if it is to
   be refused.                                                               *)
EXTENDS HritFile

MphLen == 5114
PktLen == 38
LineHdr == 27
HeaderLen == 1 + SizeOfType("NativeHeader")
TrailerLen == SizeOfType("Epilogue")     \* version byte and all
ASSUME HeaderLen = 445248
ASSUME TrailerLen = 380325

(* --- texts ----------------------------------------------------------------- *)
\* the parts <<offset, width>> a text is made of
TextParts(k) == CASE k \in 0..5 -> << <<80 * k, 80>> >>
                  [] k \in 6..10 -> LET o == 480 + 62 * (k - 6) IN << <<o, 46>>, <<o + 46, 16>> >>
                  [] k \in 11..47 -> << <<2154 + 80 * (k - 11), 80>> >>
CString(b) == IF \E j \in DOMAIN b : b[j] = 0 THEN SubSeq(b, 1, (CHOOSE j \in DOMAIN b : b[j] = 0 /\ \A l \in 1..(j - 1) : b[l] # 0) - 1) ELSE b
RECURSIVE Texts(_, _)
Texts(f, ps) == IF ps = <<>> THEN <<>> ELSE CString(Bytes(f, Head(ps)[1], Head(ps)[2])) \o Texts(f, Tail(ps))
InfoText(f, k) == Texts(f, TextParts(k))

Blank(c) == c \in 9..13 \union {32}
Digit(c) == c \in 48..57
\* positions in a text, from 1; 0: it does not go on like that
RECURSIVE SkipBlanks(_, _), SkipWord(_, _), SkipDigits(_, _)
SkipBlanks(t, j) == IF j <= Len(t) /\ Blank(t[j]) THEN SkipBlanks(t, j + 1) ELSE j
SkipWord(t, j) == IF j <= Len(t) /\ ~Blank(t[j]) THEN SkipWord(t, j + 1) ELSE j
SkipDigits(t, j) == IF j <= Len(t) /\ Digit(t[j]) THEN SkipDigits(t, j + 1) ELSE j
\* where the value starts, after a name and a colon
ValueAt(t) == LET a == SkipBlanks(t, 1) b == SkipWord(t, a) c == SkipBlanks(t, b) IN
              IF b > a /\ c <= Len(t) /\ t[c] = 58 THEN SkipBlanks(t, c + 1) ELSE 0
\* a number: [ok, v, next]; numbers of more than nine digits are Huge
Huge == 2000000000
RECURSIVE Decimal(_)
Decimal(ds) == IF ds = <<>> THEN 0 ELSE Decimal(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)] - 48
RECURSIVE NoZeros(_)
NoZeros(ds) == IF ds # <<>> /\ ds[1] = 48 THEN NoZeros(Tail(ds)) ELSE ds
NumberAt(t, j0) ==
  LET j == SkipBlanks(t, j0)
      signed == j <= Len(t) /\ t[j] \in {43, 45}
      k == IF signed THEN j + 1 ELSE j
      e == SkipDigits(t, k)
      ds == NoZeros(SubSeq(t, k, e - 1))
      v == IF Len(ds) > 9 THEN Huge ELSE Decimal(ds) IN
  IF e = k THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> IF signed /\ t[j] = 45 THEN -v ELSE v, next |-> e]
No == [ok |-> FALSE]
ValueNumber(t) == LET a == ValueAt(t) IN IF a = 0 THEN No ELSE NumberAt(t, a)
\* "size position": the second of two numbers
ValuePosition(t) == LET q == ValueNumber(t) IN IF q.ok THEN NumberAt(t, q.next) ELSE No
ValueWord(t) == LET a == ValueAt(t) IN
                IF a = 0 THEN No ELSE IF SkipWord(t, a) = a THEN No ELSE [ok |-> TRUE, v |-> SubSeq(t, a, SkipWord(t, a) - 1)]

(* --- packets ---------------------------------------------------------------- *)
Wide4(b) == IF b[1] >= 128 THEN Huge ELSE U4(b, 0)
PacketLength(f, p) == Wide4(Bytes(f, p + Offset("PacketHeader", <<[f |-> "PacketLength", i |-> <<>>]>>), 4))
There(f, p, n) == p >= 0 /\ p <= f.n /\ n <= f.n - p
\* a packet of exactly len bytes after its header
Packet(f, p, len) == There(f, p, PktLen + len) /\ PacketLength(f, p) = len + 15

\* the packets of lines one after the other: chans is the channel of each
RECURSIVE Walk(_, _, _, _)
Walk(f, p, chans, done) ==
  IF chans = <<>> THEN [ok |-> TRUE, lines |-> done]
  ELSE IF ~There(f, p, PktLen + LineHdr) THEN No
  ELSE LET len == PacketLength(f, p) IN
       IF len < 15 + LineHdr \/ ~There(f, p, PktLen + len - 15) THEN No
       ELSE Walk(f, p + PktLen + len - 15, Tail(chans), Append(done, [chan |-> Head(chans), at |-> p, len |-> len - 15 - LineHdr]))

HRV == 11
RECURSIVE PerLine(_, _)
PerLine(sel, c) == IF c > HRV THEN <<>> ELSE (IF c \in sel THEN IF c = HRV THEN <<c, c, c>> ELSE <<c>> ELSE <<>>) \o PerLine(sel, c + 1)
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 \/ s = <<>> THEN <<>> ELSE s \o Repeat(s, n - 1)

Count(x) == x.ok /\ x.v >= 0 /\ x.v < Huge
Content(f) ==
  IF ~There(f, 0, MphLen + PktLen + HeaderLen) \/ ~Packet(f, MphLen, HeaderLen) THEN No
  ELSE LET tp == ValuePosition(InfoText(f, 10))
           dp == ValuePosition(InfoText(f, 9)) IN
  IF ~tp.ok \/ ~dp.ok THEN No
  ELSE IF ~Packet(f, tp.v, TrailerLen) THEN No
  ELSE LET w == ValueWord(InfoText(f, 39))
           q == [k \in 40..45 |-> ValueNumber(InfoText(f, k))] IN
  IF ~w.ok \/ \E k \in 40..45 : ~Count(q[k]) THEN No
  ELSE LET sel == {c \in 0..HRV : c < Len(w.v) /\ w.v[c + 1] = 88}
           walk == Walk(f, dp.v, Repeat(PerLine(sel, 0), q[44].v), <<>>)
           hl == ValueNumber(InfoText(f, 46))
           hc == ValueNumber(InfoText(f, 47)) IN
  IF ~walk.ok \/ (HRV \in sel /\ ~(Count(hl) /\ Count(hc))) THEN No
  ELSE [ok |-> TRUE, sel |-> sel, trailer |-> tp.v, packets |-> walk.lines,
        nl |-> [c \in 0..HRV |-> IF c \notin sel THEN 0 ELSE IF c = HRV THEN hl.v ELSE q[44].v],
        nc |-> [c \in 0..HRV |-> IF c \notin sel THEN 0 ELSE IF c = HRV THEN hc.v ELSE q[45].v]]

(* --- lines and samples ------------------------------------------------------- *)
LinesOf(m, c) == SelectSeq(m.packets, LAMBDA l : l.chan = c)
NSamples(l) == (l.len * 8) \div 10
\* the j-th sample (from 0) of ten bits, of bytes b
Sample(b, j) ==
  LET bit == 10 * j  k == bit \div 8 + 1  s == bit % 8
      two == b[k] * 256 + b[k + 1] IN
  (two \div (CASE s = 0 -> 64 [] s = 2 -> 16 [] s = 4 -> 4 [] s = 6 -> 1)) % 1024
Samples(f, l) == LET b == Bytes(f, l.at + PktLen + LineHdr, l.len) IN [j \in 1..NSamples(l) |-> Sample(b, j - 1)]
\* the first 60 and the last 4 samples
Ends(f, l) ==
  LET n == NSamples(l) IN
  IF n <= 64 THEN Samples(f, l)
  ELSE LET head == Bytes(f, l.at + PktLen + LineHdr, 75)
           from == ((n - 4) \div 4) * 4    \* a sample that starts at a byte
           tail == Bytes(f, l.at + PktLen + LineHdr + ((from * 10) \div 8), l.len - ((from * 10) \div 8)) IN
       [j \in 1..64 |-> IF j <= 60 THEN Sample(head, j - 1) ELSE Sample(tail, n - 64 + j - 1 - from)]
\* the image of a channel: what the file does not have is black
Image(f, m, c) ==
  LET ls == LinesOf(m, c) IN
  [y \in 1..m.nl[c] |-> LET row == IF y <= Len(ls) THEN Samples(f, ls[y]) ELSE <<>> IN
     [x \in 1..m.nc[c] |-> IF x <= Len(row) THEN row[x] ELSE 0]]

(* --- a reader ------------------------------------------------------------------ *)
\* phase: closed, open (the file f), read (f understood as m), lost (a read was refused: only closing is defined)
Closed == [phase |-> "closed"]
Opened(f) == [phase |-> "open", f |-> f]
AfterRead(s) == IF s.phase # "open" THEN No ELSE Content(s.f)

(* --- writing, for the models --------------------------------------------------- *)
RECURSIVE DecimalText(_)
DecimalText(n) == IF n < 0 THEN <<45>> \o DecimalText(-n) ELSE (IF n < 10 THEN <<>> ELSE DecimalText(n \div 10)) \o <<48 + (n % 10)>>
NamedText(v) == <<78, 32, 58, 32>> \o v \o <<10, 0>>       \* "N : v"
At1(k, v) == [at |-> TextParts(k)[1][1], is |-> NamedText(v)]
\* name in the first part, numbers in the second
At2(k, p) == <<[at |-> TextParts(k)[1][1], is |-> <<78, 32, 58, 32, 49, 32, 0>>], [at |-> TextParts(k)[2][1], is |-> DecimalText(p) \o <<10, 0>>]>>
PacketPatch(p, len) == [at |-> p + 18, is |-> B4(len + 15)]
=============================================================================
