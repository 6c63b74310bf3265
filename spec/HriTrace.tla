------------------------------ MODULE HriTrace ------------------------------
(* What the real code was seen to do with HRI headers, images and files.
   State: the image in hand (hwrites: the lines put into it, latest first),
   and the coefficients it was given. *)
EXTENDS HriFile, TraceBase

NoImage == [w |-> 0, h |-> 0, band |-> "", sat |-> "", cal |-> <<>>, puts |-> <<>>]
MyStarts(r) == {NoImage}
Keep(s, ok) == IF ok THEN {s} ELSE {}
L(v) == IF v = <<-1>> THEN R("NaN") ELSE RBits(v[1], v[2], v[3], v[4])
FltMax == R("3.4028234663852886e38")
FltMin == R("1.1754943508222875e-38")
Flt(out, v) == IF RLt(RAbs(v), FltMin) THEN RLe(RAbs(out), FltMin) ELSE IF RLt(FltMax, RAbs(v)) THEN RLe(FltMax, RAbs(out)) /\ RLt(0, RMul(out, IF RLt(v, 0) THEN -1 ELSE 1)) ELSE REq(out, v)
Dbl(out, v) == RClose(out, v, R("4.5e-16"), R("1e-300"))
Near(out, v) == RClose(out, v, R("2e-6"), R("1e-6"))
Warm(out, v) == RClose(out, v, R("2e-4"), R("2e-6"))

\* ---- labels
B(x) == IF x THEN 1 ELSE 0
LabelNums(b) == <<U2(b, 0), U2(b, 2), U2(b, 4), U2(b, 6)>> \o [k \in 1..12 |-> b[12 + k]]
LabelFlags(b) ==
  LET enc == b[19] scan == b[20] IN
  <<B(b[13] = 0), B(b[13] = 255), B(b[13] = 15), B(b[14] # 0), B(b[15] # 0), B(b[16] # 0), B(b[17] # 0),
    B(b[14] = 240), B(b[14] = 15), B(b[15] = 240), B(b[15] = 15), B(b[14] = 255), B(b[15] = 255), B(b[18] # 0),
    (enc \div 8) % 2, (enc \div 4) % 2, (enc \div 2) % 2, enc % 2,
    B(scan = 0), B(scan = 240), B(scan = 15), B(scan = 255)>>
LabelOk(r) ==
  /\ r.out.nums = LabelNums(r.bytes) /\ r.out.image = <<U2(r.bytes, 8), U2(r.bytes, 10)>> /\ r.out.flags = LabelFlags(r.bytes)
  /\ r.out.err = B(Letter(r.bytes[13]) = "?") /\ (r.out.err = 0 => r.out.code = FormatOf(r.bytes))

\* ---- identification
MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
DayNames == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Two(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
AscTime(b) == LET d == DateOf(b) IN
  DayNames[WeekDay(b) + 1] \o " " \o MonthNames[d[2]] \o (IF d[3] < 10 THEN "  " ELSE " ") \o ToString(d[3]) \o " "
  \o Two(d[4]) \o ":" \o Two(d[5]) \o ":00 " \o ToString(d[1])
IdentOk(r) ==
  LET b == r.bytes IN
  IF SatOf(b) = "?" THEN r.out.err = 1
  ELSE /\ r.out.err = 0 /\ r.out.name = SatOf(b) /\ r.out.date = DateOf(b) /\ r.out.tm = DateOf(b) /\ r.out.text = AscTime(b)
       /\ r.out.day = U2(b, 4) /\ r.out.time = U2(b, 6)
       /\ r.out.col = U2(b, 20) /\ r.out.line = U2(b, 22) /\ r.out.lon = I2(b, 24)
       /\ r.out.is = <<B(b[1] = 212), B(SatOf(b) = "GOES-E"), B(SatOf(b) = "GOES-W"), B(SatOf(b) = "GMS"), B(SatOf(b) = "GOMS")>>

\* ---- interpretation
InterpOk(r) ==
  LET b == r.bytes IN
  /\ \A k \in DOMAIN DecFields : LET f == DecFields[k] IN Near(L(r.out.dec[k]), Dec(b, f[1], f[2], f[3]))
  /\ r.out.ints = [k \in DOMAIN IntFields |-> Digits(b, IntFields[k][1], IntFields[k][2])]
  /\ \A k \in DOMAIN Ibm8Fields : Dbl(L(r.out.r8[k]), Ibm8(b, Ibm8Fields[k]))
  /\ \A k \in DOMAIN Ibm4Fields : Flt(L(r.out.r4[k]), Ibm4(b, Ibm4Fields[k]))
  /\ r.out.i4 = [k \in DOMAIN I4Fields |-> <<U2(b, I4Fields[k]), U2(b, I4Fields[k] + 2)>>]
  /\ r.out.i2 = [k \in DOMAIN I2Fields |-> I2(b, I2Fields[k])]
  /\ r.out.flags = [k \in DOMAIN FlagFields |-> B(b[FlagFields[k] + 1] # 0)]
  /\ r.out.msg = r.msg /\ r.out.printed = r.msg
  /\ r.out.v2 = <<I2(b, 460), I2(b, 468)>>

\* ---- keys: slots of 12 bytes; key and station numbers, and 8 bytes
Used(b, k) == b[(12 * k) + 1] # 0
Station(b, k) == b[(12 * k) + 4]
Key(b, k) == SubSeq(b, (12 * k) + 5, (12 * k) + 12)
FirstOf(b, st, key) == LET q == {k \in 0..119 : Used(b, k) /\ Station(b, k) = st /\ b[(12 * k) + 2] = key} IN IF q = {} THEN -1 ELSE CHOOSE k \in q : \A j \in q : k <= j
\* the given slots, in order
Slots(given) == [k \in 1..1440 |-> LET q == {j \in DOMAIN given : given[j][1] = (k - 1) \div 12} IN IF q = {} THEN 0 ELSE given[CHOOSE j \in q : TRUE][2 + ((k - 1) % 12)]]
KeysOk(r) ==
  \E b \in {Slots(r.slots)} :
  \A k \in DOMAIN r.ask : LET st == r.ask[k][1] key == r.ask[k][2] at == FirstOf(b, st, key) o == r.out.got[k] IN
    /\ o.has = B(\E j \in 0..119 : Used(b, j) /\ Station(b, j) = st)
    /\ IF at < 0 THEN o.usage = 0 /\ o.key = [j \in 1..8 |-> 0] /\ o.num = 0 /\ o.st = 0
       ELSE o.usage = 1 /\ o.num = key /\ o.st = st /\ o.key = Key(b, at)

\* ---- an image
PutPixel(seed, x) == (x * 7 + seed) % 256
Covers(s, q, y, x) == q[1] = y /\ (CASE q[2] = 0 -> TRUE [] q[2] = 1 -> x < s.w \div 2 [] q[2] = 2 -> x >= (s.w \div 2) - 2 /\ x < s.w - 2)
PixelOf(s, y, x) ==                     \* -1: nothing was put there
  LET q == {k \in DOMAIN s.puts : Covers(s, s.puts[k], y, x)} IN
  IF q = {} THEN -1 ELSE LET p == s.puts[CHOOSE k \in q : \A j \in q : k <= j] IN PutPixel(p[3], IF p[2] = 2 THEN x - ((s.w \div 2) - 2) ELSE x)
Seen(s, y, x, v) == PixelOf(s, y, x) = -1 \/ v = PixelOf(s, y, x)
Outside(s, y) == y < 0 \/ y >= s.h
StepImage(s, r) ==
  CASE r.op = "inew" -> LET m == ImageOf(r.fmt, r.band) IN
         IF m.w = 0 THEN (IF r.out.err = 1 THEN {NoImage} ELSE {})
         ELSE IF /\ r.out.err = 0 /\ r.out.w = m.w /\ r.out.h = m.h /\ r.out.units = Units(r.band) /\ r.out.step = <<m.step, m.step>> /\ r.out.band = BandCode(r.band)
              THEN {[NoImage EXCEPT !.w = m.w, !.h = m.h, !.band = r.band, !.sat = r.sat]} ELSE {}
    [] s.w = 0 -> Keep(s, TRUE)
    [] r.op = "iput" -> IF Outside(s, r.y) \/ r.n # s.w THEN Keep(s, r.out.err = 1) ELSE IF r.out.err = 0 THEN {[s EXCEPT !.puts = << <<r.y, 0, r.seed>> >> \o @]} ELSE {}
    [] r.op = "ihalf" -> IF Outside(s, r.y) \/ r.n # s.w \div 2 THEN Keep(s, r.out.err = 1) ELSE IF r.out.err = 0 THEN {[s EXCEPT !.puts = << <<r.y, r.half, r.seed>> >> \o @]} ELSE {}
    [] r.op = "ipixel" -> IF Outside(s, r.y) \/ r.x < 0 \/ r.x >= s.w THEN Keep(s, r.out.err = 1) ELSE Keep(s, r.out.err = 0 /\ Seen(s, r.y, r.x, r.out.v))
    [] r.op = "iline" -> IF Outside(s, r.y) THEN Keep(s, r.out.err = 1)
                         ELSE Keep(s, r.out.err = 0 /\ \A k \in DOMAIN r.xs : (r.xs[k] >= 0 /\ r.xs[k] < s.w) => Seen(s, r.y, r.xs[k], r.out.vs[k]) /\ Seen(s, r.y, r.xs[k], r.out.whole[k]))
    [] r.op = "icoeff" -> {[s EXCEPT !.cal = <<L(r.cc), L(r.sc)>>]}
    [] r.op = "ical" -> IF s.cal = <<>> /\ s.sat \in {"METEOSAT", "INDOX"} /\ s.band \in {"IR", "WV"} THEN {s}
                        ELSE LET c == IF s.cal = <<>> THEN <<R("0"), R("0")>> ELSE s.cal IN
                             Keep(s, \A k \in DOMAIN r.ns : Warm(L(r.out.vs[k]), CalOf(s.sat, s.band, c[1], c[2], r.ns[k])))

\* ---- files: their bytes are given by rule where the header and the sync bytes do not say otherwise
ByteAt(r, p) == (p * 37 + (p \div 364) * 11 + (p \div 4096) * 5 + r.v) % 256
CalText(r) == [k \in 1..100 |-> IF k > 46 /\ k <= 46 + Len(r.caltext) THEN r.caltext[k - 46] ELSE 0]
GeneralOk(r, f) ==
  LET o == r.out sat == SatOf(r.ident) t == CalText(r) IN
  /\ o.err = 0 /\ o.fmt = f /\ o.sat = sat /\ o.lon = I2(r.ident, 24) /\ o.tm = DateOf(r.ident) /\ o.geo = Geo(f) /\ o.bits = 8
  /\ o.area = (IF IsA(f) THEN "AFormat" ELSE IF IsB(f) THEN "BFormat" ELSE "XFormat")
  /\ RClose(L(o.orbit), Ibm8(r.satdis, 0), R("1e-7"), R("0")) /\ o.seed = r.seed
  /\ Len(o.images) = Len(Images(f))
  /\ \A k \in DOMAIN o.images : LET m == Images(f)[k] g == o.images[k] IN
       /\ g.w = m.w /\ g.h = m.h /\ g.units = Units(m.band) /\ g.band = BandCode(m.band) /\ g.step = <<m.step, m.step>>
       /\ \E cc \in {IF m.band = "IR" THEN Dec(t, 51, 5, 5) ELSE Dec(t, 64, 5, 5)}, sc \in {IF m.band = "IR" THEN Dec(t, 56, 3, 1) ELSE Dec(t, 69, 3, 1)} :
            \A j \in DOMAIN r.ns : Warm(L(g.cal[j]), CalOf(CalSat(f, sat), m.band, cc, sc, r.ns[j]))
  /\ o.keys = (IF IsA(f) THEN [k \in DOMAIN r.slots |-> <<r.slots[k][5], r.slots[k][3]>>] ELSE <<>>)
\* a pixel: data lines that are wholly in the file
PixelsOk(r, f) ==
  \A k \in DOMAIN r.px : LET q == r.px[k] im == q[1] + 1 IN
    (im <= Len(Images(f)) /\ Carried(f, im, q[3])) =>
      \/ r.cut >= 0 /\ HeadLen(r.tec = 1, f) + (DataLineOf(f, im, q[2], q[3]) + 1) * LineLen(r.tec = 1, f) > r.cut
      \/ r.out.px[k] = ByteAt(r, PixelAt(r.tec = 1, f, im, q[2], q[3]))
FileOk(r) ==
  LET f == FormatOf(r.label) tec == r.tec = 1 IN
  IF f \notin Formats \/ SatOf(r.ident) = "?" \/ r.id # FrameId(f) THEN r.out.err = 1
  ELSE IF r.bad >= 0 THEN r.out.err = 1
  ELSE IF r.cut < 0 \/ r.cut >= FileLen(tec, f) THEN GeneralOk(r, f) /\ PixelsOk(r, f)
  ELSE IF tec THEN r.out.err = 1
  ELSE r.out.err = 1 \/ ((r.cut >= Frame => r.out.fmt = f) /\ PixelsOk(r, f))

MyStep(s, r) ==
  IF "exc" \in DOMAIN r.out THEN {}
  ELSE
  CASE r.op = "label" -> Keep(s, LabelOk(r))
    [] r.op = "ident" -> Keep(s, IdentOk(r))
    [] r.op = "interp" -> Keep(s, InterpOk(r))
    [] r.op = "keys" -> Keep(s, KeysOk(r))
    [] r.op = "r4" -> Keep(s, Flt(L(r.out.v), Ibm4(r.bytes, 0)))
    [] r.op = "r8" -> Keep(s, Dbl(L(r.out.v), Ibm8(r.bytes, 0)))
    [] r.op = "file" -> Keep(s, FileOk(r))
    [] OTHER -> StepImage(s, r)
=============================================================================
