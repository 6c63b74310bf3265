------------------------------ MODULE OmtpFile ------------------------------
(* Meteosat first generation images in the OpenMTP-IDS format.  A file is a
   sequence of bytes: a file header, padded to the record length it gives, and
   records of scan lines.  All numbers have two bytes, most significant first.
     image  [fortran, nums (25), sat (8 bytes), recs]
     record [fortran, nums (4), lines]
     line   [nums (8), px]                                                   *)
EXTENDS Integers, Sequences, FiniteSets

\* positions in the numbers of the headers
NoRecords == 1   VisId == 11   WvId == 12   IrId == 13   RecordLength == 15
NoLines == 2
LLength == 1   LNoPixels == 4   LChannel == 5

U2(b, p) == b[p] * 256 + b[p + 1]
B2(v) == <<(v \div 256) % 256, v % 256>>
Numbers(b, p, n) == [k \in 1..n |-> U2(b, p + 2 * (k - 1))]
RECURSIVE Coded(_)
Coded(ns) == IF ns = <<>> THEN <<>> ELSE B2(Head(ns)) \o Coded(Tail(ns))
Zeros(n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> 0]

No == [ok |-> FALSE]
(* --- reading: p is the position of the next byte (from 1) -------------------- *)
Left(b, p) == Len(b) - p + 1
ReadLine(b, p) ==
  IF Left(b, p) < 16 THEN No
  ELSE LET ns == Numbers(b, p, 8) IN
       IF ns[LLength] < 16 + ns[LNoPixels] \/ Left(b, p) < ns[LLength] THEN No
       ELSE [ok |-> TRUE, v |-> [nums |-> ns, px |-> SubSeq(b, p + 16, p + 15 + ns[LNoPixels])], next |-> p + ns[LLength]]
RECURSIVE ReadLines(_, _, _, _)
ReadLines(b, p, n, done) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> done, next |-> p]
  ELSE LET l == ReadLine(b, p) IN IF ~l.ok THEN No ELSE ReadLines(b, l.next, n - 1, Append(done, l.v))
ReadRecord(b, p) ==
  IF Left(b, p) < 10 THEN No
  ELSE LET ns == Numbers(b, p + 2, 4)
           ls == ReadLines(b, p + 10, ns[NoLines], <<>>) IN
       IF ~ls.ok THEN No ELSE [ok |-> TRUE, v |-> [fortran |-> SubSeq(b, p, p + 1), nums |-> ns, lines |-> ls.v], next |-> ls.next]
RECURSIVE ReadRecords(_, _, _, _)
ReadRecords(b, p, n, done) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> done]
  ELSE LET r == ReadRecord(b, p) IN IF ~r.ok THEN No ELSE ReadRecords(b, r.next, n - 1, Append(done, r.v))
Parse(b) ==
  IF Len(b) < 60 THEN No
  ELSE LET ns == Numbers(b, 3, 13) \o Numbers(b, 37, 12)
           at == ns[RecordLength] + 2 IN
       IF at < 60 \/ Len(b) < at \/ ns[NoRecords] = 0 THEN No
       ELSE LET rs == ReadRecords(b, at + 1, ns[NoRecords] - 1, <<>>) IN
            IF ~rs.ok THEN No
            ELSE [ok |-> TRUE, v |-> [fortran |-> SubSeq(b, 1, 2), nums |-> ns, sat |-> SubSeq(b, 29, 36), recs |-> rs.v]]

(* --- writing ------------------------------------------------------------------ *)
WrittenLine(l) == Coded(l.nums) \o l.px \o Zeros(l.nums[LLength] - Len(l.px) - 16)
RECURSIVE WrittenLines(_)
WrittenLines(ls) == IF ls = <<>> THEN <<>> ELSE WrittenLine(Head(ls)) \o WrittenLines(Tail(ls))
RECURSIVE WrittenRecords(_)
WrittenRecords(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs).fortran \o Coded(Head(rs).nums) \o WrittenLines(Head(rs).lines) \o WrittenRecords(Tail(rs))
\* the file header counts as a record; an image may hold more of them than it announces, not fewer
Writable(m) == m.nums[NoRecords] >= 1 /\ m.nums[NoRecords] - 1 <= Len(m.recs)
Written(m) ==
  m.fortran \o Coded(SubSeq(m.nums, 1, 13)) \o m.sat \o Coded(SubSeq(m.nums, 14, 25))
  \o Zeros(m.nums[RecordLength] + 2 - 60) \o WrittenRecords(SubSeq(m.recs, 1, m.nums[NoRecords] - 1))

(* --- scan lines ----------------------------------------------------------------- *)
RECURSIVE AllLines(_)
AllLines(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs).lines \o AllLines(Tail(rs))
LinesBetween(m, from, to) ==       \* from 0, without the last
  LET a == AllLines(m.recs) IN SubSeq(a, from + 1, IF to > Len(a) THEN Len(a) ELSE to)

(* --- the images in an image -------------------------------------------------------- *)
ChannelFile(id) == CASE id \in {1, 2, 3, 8, 9, 10, 11, 12} -> "vis.pgm"
                     [] id \in {4, 5} -> "ir.pgm"
                     [] id \in {6, 7} -> "wv.pgm"
                     [] OTHER -> "unknown-channel.pgm"
ChannelLines(m, id) == SelectSeq(AllLines(m.recs), LAMBDA l : l.nums[LChannel] = id)
\* channels whose lines make an image
Rectangular(ls) == ls # <<>> /\ ls[1].px # <<>> /\ \A k \in DOMAIN ls : Len(ls[k].px) = Len(ls[1].px)
HasImage(m, id) == id # 0 /\ Rectangular(ChannelLines(m, id))
Ids(m) == <<m.nums[VisId], m.nums[IrId], m.nums[WvId]>>
\* the files made: each has the last of the images that go there; a file whose
\* last image is not one may hold anything, or not be there
Attempts(m, f) == {k \in 1..3 : Ids(m)[k] # 0 /\ ChannelFile(Ids(m)[k]) = f}
LastOf(K) == CHOOSE k \in K : \A j \in K : j <= k
PgmFiles == {"vis.pgm", "ir.pgm", "wv.pgm", "unknown-channel.pgm"}
Bare(m, id) == ChannelLines(m, id) = <<>> \/ ChannelLines(m, id)[1].px = <<>>
PgmOk(m, f, is) ==       \* `is' the file seen: [what |-> "none"], "bad" or "image"
  LET K == {k \in Attempts(m, f) : ~Bare(m, Ids(m)[k])} IN      \* (nothing is written for no lines)
  IF K = {} THEN is.what = "none"
  ELSE LET id == Ids(m)[LastOf(K)] IN
       HasImage(m, id) => /\ is.what = "image"
                          /\ is.rows = [k \in DOMAIN ChannelLines(m, id) |-> ChannelLines(m, id)[k].px]
PgmDone(m) == \E k \in 1..3 : HasImage(m, Ids(m)[k])

(* --- images too large to be written here: a rule gives every line ----------------------- *)
RuleNums(p, i) == <<p.w + 16 + p.pad, i, i % 7, IF i = p.short THEN p.shortw ELSE p.w, 1 + (i % 3), i % 11, i % 13, i % 17>>
RulePixel(p, i, x) == (p.a * i + p.b * x + p.c) % 251
From == 2655   To == 3165   Left0 == 546   Right0 == 802
SectorLines(p) == {i \in From..(To - 1) : i < p.lines}
SectorOf(p) == SectorLines(p) # {} /\ \A i \in SectorLines(p) : RuleNums(p, i)[LNoPixels] >= Right0
=============================================================================
