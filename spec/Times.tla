------------------------------- MODULE Times -------------------------------
(* Times in the records of the satellite's messages: instants of UTC, counted
   in days from 1958-01-01 and milliseconds (CDS), in 1/2^24 seconds (CUC), or
   spelled out (generalized). *)
EXTENDS Sky

Kinds == {"short", "cds", "expanded", "cuc", "general"}
Width(kind) == CASE kind = "short" -> 6 [] kind = "cds" -> 8 [] kind = "expanded" -> 10 [] kind = "cuc" -> 7 [] kind = "general" -> 15

W16(b, k) == b[k + 1] * 256 + b[k + 2]
\* seconds and milliseconds in the day, of the four bytes at offset k: 65536 = 65 * 1000 + 536
SecOf(b, k) == LET h == W16(b, k) l == W16(b, k + 2) IN h * 65 + (h * 536 + l) \div 1000
MsOf(b, k) == LET h == W16(b, k) l == W16(b, k + 2) IN (h * 536 + l) % 1000
Epoch70 == 4383                          \* days from 1958-01-01 to 1970-01-01

\* the instant: day from 1970, second of that day, ms
CdsInstant(b) == [day |-> W16(b, 0) + SecOf(b, 2) \div 86400 - Epoch70, sec |-> SecOf(b, 2) % 86400, ms |-> MsOf(b, 2)]

Dig(b, k, n) == LET d(j) == b[k + j] - 48 IN CASE n = 2 -> d(1) * 10 + d(2) [] n = 4 -> ((d(1) * 10 + d(2)) * 10 + d(3)) * 10 + d(4)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970 of a civil date
DayNumber(y, m, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + DayOfYear(y, m, d) - 1 - 719162
GenParts(b) == [y |-> Dig(b, 0, 4), m |-> Dig(b, 4, 2), d |-> Dig(b, 6, 2), H |-> Dig(b, 8, 2), M |-> Dig(b, 10, 2), S |-> Dig(b, 12, 2)]
GenGood(b) == /\ \A k \in 1..14 : b[k] \in 48..57
              /\ b[15] = 90
              /\ LET g == GenParts(b) IN g.m \in 1..12 /\ g.d \in 1..DaysIn(g.y, g.m) /\ g.H < 24 /\ g.M < 60 /\ g.S < 60 /\ g.y >= 1000
GenInstant(b) == LET g == GenParts(b) IN [day |-> DayNumber(g.y, g.m, g.d), sec |-> (g.H * 60 + g.M) * 60 + g.S]

Parts(t) == LET c == Civil(t.day + Epoch70) IN
   [y |-> c.y, m |-> c.m, d |-> c.d, H |-> t.sec \div 3600, M |-> (t.sec \div 60) % 60, S |-> t.sec % 60]

RECURSIVE Decimal(_, _)
Decimal(n, w) == (IF n >= 10 \/ w > 1 THEN Decimal(n \div 10, w - 1) ELSE <<>>) \o <<48 + (n % 10)>>
DateText(p) == Decimal(p.y, 4) \o <<45>> \o Decimal(p.m, 2) \o <<45>> \o Decimal(p.d, 2) \o <<32>>
               \o Decimal(p.H, 2) \o <<58>> \o Decimal(p.M, 2) \o <<58>> \o Decimal(p.S, 2)
Msecs == <<32, 109, 115, 101, 99, 115>>
TextOf(kind, b) ==
  IF kind = "general" THEN DateText(GenParts(b))
  ELSE LET t == CdsInstant(b) IN
       DateText(Parts(t)) \o <<32, 43>> \o Decimal(t.ms, 3)
       \o (CASE kind = "short" -> <<>> [] kind = "cds" -> <<46>> \o Decimal(W16(b, 6), 3) [] kind = "expanded" -> <<46>> \o Decimal(W16(b, 6), 3) \o Decimal(W16(b, 8), 3))
       \o Msecs
CucCoarse(b) == Decimal(b[1], 3) \o <<32>> \o Decimal(b[2], 3) \o <<32>> \o Decimal(b[3], 3) \o <<32>> \o Decimal(b[4], 3)
CucFine(b) == Decimal(b[5], 3) \o <<32>> \o Decimal(b[6], 3) \o <<32>> \o Decimal(b[7], 3)
RECURSIVE CucSum(_, _)
CucSum(b, acc) == IF b = <<>> THEN acc ELSE CucSum(Tail(b), RAdd(RMul(acc, 256), Head(b)))
CucValue(b) == RDiv(CucSum(b, R("0")), 16777216)
=============================================================================
