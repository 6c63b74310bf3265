------------------------------ MODULE HriFile -------------------------------
(* Files of the METEOSAT High Resolution Image dissemination (HRI): a header
   in frames of 364 bytes, the keys of A formats, then the lines of one or two
   images, each line in the data fields of a row of frames.  The files of
   TECNAVIA receivers hold the same fields in larger blocks. *)
EXTENDS Times, TLC

\* ---- label: which images the file carries
Letter(b) == CASE b = 0 -> "A" [] b = 255 -> "B" [] b = 15 -> "X" [] OTHER -> "?"
FormatOf(l) ==                           \* of the 24 bytes of the label
  LET v == l[14] # 0 \/ l[15] # 0 IN
  Letter(l[13]) \o (IF l[16] # 0 THEN "I" ELSE "") \o (IF v THEN "V" ELSE "")
  \o (IF l[17] # 0 THEN "W" ELSE IF v /\ (l[14] = 255 \/ l[15] = 255) THEN "H" ELSE "")
Formats == {"AV", "AVH", "AW", "AIW", "AIVH", "BW", "BIV", "BIVH", "BIW", "XI", "XW", "XVH"}
IsA(f) == f \in {"AV", "AVH", "AW", "AIW", "AIVH"}
IsB(f) == f \in {"BW", "BIV", "BIVH", "BIW"}
FrameId(f) == IF IsA(f) THEN 112 ELSE 48

\* ---- the images: [w, h, band, step], step = distance of the samples
Img(w, h, band, step) == [w |-> w, h |-> h, band |-> band, step |-> step]
ImageOf(l, band) ==                      \* of a format letter and a band
  CASE l = "A" /\ band = "VIS" -> Img(5000, 5000, "VIS", 1)
    [] l = "A" /\ band # "VIS" -> Img(2500, 2500, band, 1)
    [] l = "B" /\ band = "VIS" -> Img(2500, 1250, "VIS", 1)
    [] l = "B" /\ band \in {"IR", "WV"} -> Img(1250, 625, band, 2)
    [] l = "X" /\ band # "VIS" -> Img(1250, 1250, band, 2)
    [] OTHER -> Img(0, 0, band, 0)
Images(f) ==
  CASE f = "AV" -> <<ImageOf("A", "VIS")>> [] f = "AVH" -> <<ImageOf("A", "VH")>> [] f = "AW" -> <<ImageOf("A", "WV")>>
    [] f = "AIW" -> <<ImageOf("A", "IR"), ImageOf("A", "WV")>> [] f = "AIVH" -> <<ImageOf("A", "IR"), ImageOf("A", "VH")>>
    [] f = "BW" -> <<ImageOf("B", "WV")>> [] f = "BIW" -> <<ImageOf("B", "IR"), ImageOf("B", "WV")>>
    [] f \in {"BIV", "BIVH"} -> <<ImageOf("B", "IR"), ImageOf("B", "VIS")>>
    [] f = "XI" -> <<ImageOf("X", "IR")>> [] f = "XW" -> <<ImageOf("X", "WV")>> [] f = "XVH" -> <<ImageOf("X", "VH")>>
Units(band) == IF band \in {"IR", "WV"} THEN "K" ELSE "%"
BandCode(band) == CASE band = "IR" -> 0 [] band = "WV" -> 1 [] band = "VIS" -> 2 [] band = "VH" -> 3
Geo(f) ==
  CASE f \in {"AW", "AIW", "AIVH", "AVH"} -> <<-9102222, -9102222, 1248, 1249>>
    [] f = "AV" -> <<-18204444, -18204444, 2500, 2500>>
    [] IsB(f) -> <<-18204444, -18204444, 1248, -1118>>
    [] OTHER -> <<-9102222, -9102222, 1250, 1250>>

\* ---- the data lines of a turn: <<image, line of the image in the turn, half>> (half 0: a whole line)
Halves(k) == << <<k, 0, 1>>, <<k, 0, 2>>, <<k, 1, 1>>, <<k, 1, 2>> >>
Turn(f) ==
  CASE f = "AV" -> Halves(1)
    [] f \in {"BIV", "BIVH"} -> << <<1, 0, 0>> >> \o Halves(2)
    [] f \in {"AIW", "AIVH", "BIW"} -> << <<1, 0, 0>>, <<2, 0, 0>> >>
    [] OTHER -> << <<1, 0, 0>> >>
PerTurn(f, k) == IF f = "AV" \/ (f \in {"BIV", "BIVH"} /\ k = 2) THEN 2 ELSE 1     \* lines of image k
Turns(f) == Images(f)[1].h \div PerTurn(f, 1)
DataLines(f) == Turns(f) * Len(Turn(f))

\* ---- where the bytes are.  tec: a TECNAVIA file
Frame == 364
HeadLen(tec, f) == IF tec THEN 2048 + (IF IsA(f) THEN 1536 ELSE 0) ELSE Frame * (IF IsA(f) THEN 8 ELSE 4)
LineLen(tec, f) == IF tec THEN (IF IsA(f) THEN 3072 ELSE 1536) ELSE Frame * (IF IsA(f) THEN 8 ELSE 4)
LineWidth(f) == IF IsA(f) THEN 2500 ELSE 1250
\* the data fields of a line: <<offset in the line, bytes>>
Fields(tec, f) ==
  IF tec THEN (IF IsA(f) THEN << <<388, 2500>> >> ELSE << <<196, 1250>> >>)
  ELSE IF IsA(f) THEN << <<68, 296>> >> \o [k \in 1..6 |-> <<Frame * k + 4, 360>>] \o << <<Frame * 7 + 4, 44>> >>
  ELSE << <<36, 328>>, <<Frame + 4, 360>>, <<Frame * 2 + 4, 360>>, <<Frame * 3 + 4, 202>> >>
FileLen(tec, f) == HeadLen(tec, f) + DataLines(f) * LineLen(tec, f)
\* every frame begins with 05 0C DF
SyncsOfLine(tec, f) == IF tec THEN {0} ELSE {Frame * k : k \in 0..((LineLen(tec, f) \div Frame) - 1)}
SyncsOfHead(tec, f) == IF tec THEN {512} ELSE {Frame * k : k \in 0..((HeadLen(tec, f) \div Frame) - 1)}
IsSync(tec, f, p) == IF p < HeadLen(tec, f) THEN p \in SyncsOfHead(tec, f) ELSE ((p - HeadLen(tec, f)) % LineLen(tec, f)) \in SyncsOfLine(tec, f)
RECURSIVE In(_, _)
In(fields, x) == IF x < fields[1][2] THEN fields[1][1] + x ELSE In(Tail(fields), x - fields[1][2])

\* ---- where pixel x of line y of image k is: the number of its data line, and its place in that line.
\* The second half of a line begins two pixels before the middle.
Half(f, k) == Images(f)[k].w \div 2
Split(f, k) == PerTurn(f, k) = 2
HalfOf(f, k, x) == IF ~Split(f, k) THEN 0 ELSE IF x < Half(f, k) - 2 THEN 1 ELSE 2
Carried(f, k, x) == Split(f, k) => x < Images(f)[k].w - 2
DataLineOf(f, k, y, x) ==
  LET t == y \div PerTurn(f, k) j == y % PerTurn(f, k)
      at == CHOOSE n \in DOMAIN Turn(f) : Turn(f)[n] = <<k, j, HalfOf(f, k, x)>>
  IN t * Len(Turn(f)) + at - 1
InLine(f, k, x) == IF HalfOf(f, k, x) = 2 THEN x - (Half(f, k) - 2) ELSE x
PixelAt(tec, f, k, y, x) == HeadLen(tec, f) + DataLineOf(f, k, y, x) * LineLen(tec, f) + In(Fields(tec, f), InLine(f, k, x))

\* ---- numbers
I2(b, o) == LET u == b[o + 1] * 256 + b[o + 2] IN IF u >= 32768 THEN u - 65536 ELSE u
U2(b, o) == b[o + 1] * 256 + b[o + 2]
I4(b, o) == I2(b, o) * 65536 + U2(b, o + 2)
\* IBM floating point: sign, power of 16 (+64), fraction of 24 or 56 bits
Big16 == 65536
Frac24(b, o) == RDiv(b[o + 2] * Big16 + b[o + 3] * 256 + b[o + 4], 16777216)
Frac56(b, o) == RAdd(Frac24(b, o), RDiv(RAdd(RMul(U2(b, o + 4), Big16), U2(b, o + 6)), RPow(2, 56)))
Ibm(b, o, frac) == RMul(IF b[o + 1] >= 128 THEN -1 ELSE 1, RMul(frac, RPow(16, (b[o + 1] % 128) - 64)))
Ibm4(b, o) == Ibm(b, o, Frac24(b, o))
Ibm8(b, o) == Ibm(b, o, Frac56(b, o))
\* digits, a blank being 0
Digit(b, o) == IF b[o + 1] = 32 THEN 0 ELSE b[o + 1] - 48
RECURSIVE Digits(_, _, _)
Digits(b, o, n) == IF n = 0 THEN 0 ELSE (10 * Digits(b, o, n - 1)) + Digit(b, o + n - 1)
Dec(b, o, n, places) == RDiv(Digits(b, o, n), RPow(10, places))
DecFields == << <<0, 6, 3>>, <<6, 3, 2>>, <<9, 6, 3>>, <<15, 3, 2>>, <<18, 5, 2>>, <<23, 5, 2>>, <<28, 6, 3>>, <<34, 3, 2>>, <<37, 6, 3>>, <<43, 3, 2>>,
                <<51, 5, 5>>, <<56, 3, 1>>, <<64, 5, 5>>, <<69, 3, 1>> >>
IntFields == << <<46, 3>>, <<49, 2>>, <<59, 3>>, <<62, 2>>, <<72, 3>>, <<75, 2>>, <<92, 2>>, <<94, 2>>, <<96, 2>>, <<98, 2>> >>
Ibm8Fields == <<104, 112, 120, 128, 136, 144, 152, 160, 168, 272, 280, 288, 296, 304, 312, 320>>
Ibm4Fields == <<180, 328, 332, 336, 340, 364, 368, 372, 376, 380, 384>> \o [k \in 1..16 |-> 388 + 4 * k]
I4Fields == <<176, 388>>
I2Fields == [k \in 1..12 |-> 246 + 2 * k] \o [k \in 1..8 |-> 346 + 2 * k] \o [k \in 1..8 |-> 454 + 2 * k]
FlagFields == [k \in 1..12 |-> 183 + k] \o [k \in 1..11 |-> 231 + k] \o [k \in 1..4 |-> 343 + k]

\* ---- identification
SatOf(b) == CASE b[1] = 212 -> (IF b[2] > 240 THEN "METEOSAT-" \o ToString(b[2] - 240) ELSE "METEOSAT")
              [] b[1] = 0 /\ b[2] = 0 -> "GOES-E" [] b[1] = 0 /\ b[2] = 1 -> "GOES-W"
              [] b[1] = 0 /\ b[2] = 2 -> "GMS" [] b[1] = 0 /\ b[2] = 3 -> "GOMS" [] OTHER -> "?"
DayOf(b) == DayNumber(I2(b, 2), 1, 1) + U2(b, 4) - 1
DateOf(b) == LET c == Civil(DayOf(b) + Epoch70) IN <<I2(b, 2), c.m, c.d, U2(b, 6) \div 100, U2(b, 6) % 100>>
WeekDay(b) == (DayOf(b) + 4) % 7

\* ---- calibration of the counts
CalSat(f, sat) == IF f \in {"XI", "XW", "XVH"} THEN (IF sat \in {"GOES-E", "GOES-W", "GMS"} THEN sat ELSE "INDOX") ELSE "METEOSAT"
GmsIr == <<
  13000,13000,13000,13000,13000,13000,13000,13000, 13000,13000,13000,13000,13000,13000,13419,14765, 15573,16175,16662,17077,17440,17764,18047,18318,
  18570,18805,19026,19235,19433,19622,19803,19976, 20142,20302,20457,20607,20752,20892,21029,21162, 21291,21417,21540,21660,21778,21892,22005,22115,
  22223,22329,22433,22535,22635,22733,22830,22926, 23020,23112,23203,23293,23381,23468,23554,23639, 23723,23806,23887,23968,24048,24127,24205,24282,
  24358,24433,24508,24581,24654,24726,24798,24869, 24939,25008,25077,25146,25213,25280,25347,25412, 25478,25542,25607,25670,25733,25796,25858,25920,
  25981,26042,26103,26162,26222,26281,26340,26398, 26456,26513,26570,26627,26683,26739,26795,26850, 26905,26960,27014,27068,27121,27175,27228,27280,
  27333,27385,27437,27488,27539,27590,27641,27692, 27742,27792,27841,27891,27940,27989,28037,28086, 28134,28182,28230,28277,28324,28371,28418,28465,
  28511,28558,28604,28649,28695,28740,28786,28831, 28875,28920,28965,29009,29053,29097,29141,29184, 29228,29271,29314,29357,29399,29442,29484,29527,
  29569,29611,29652,29694,29736,29777,29818,29859, 29900,29941,29981,30022,30062,30102,30142,30182, 30222,30262,30301,30341,30380,30419,30458,30497,
  30536,30574,30613,30651,30690,30728,30766,30804, 30842,30879,30917,30954,30992,31029,31066,31103, 31140,31177,31214,31251,31287,31324,31360,31396,
  31432,31468,31504,31540,31576,31612,31647,31683, 31718,31753,31788,31824,31859,31894,31928,31963, 31998,32032,32067,32101,32136,32170,32204,32238,
  32272,32306,32340,32374,32407,32441,32474,32508, 32541,32575,32608,32641,32674,32707,32740,32773>>
\* the temperature of a radiance: 0 at and below the space count
Bright(a, b, cc, sc, n) == LET rad == RMul(cc, RSub(n, sc)) IN IF RLe(rad, 0) THEN R("0") ELSE RNeg(RDiv(R(a), RSub(RLog(rad), R(b))))
CalOf(sat, band, cc, sc, n) ==
  CASE sat = "METEOSAT" /\ band = "IR" -> Bright("1255.5465", "6.9618", cc, sc, n)
    [] sat = "METEOSAT" /\ band = "WV" -> Bright("2233.4882", "9.2477", cc, sc, n)
    [] sat = "INDOX" /\ band = "IR" -> Bright("1272.2", "6.7348", cc, sc, n)
    [] sat = "INDOX" /\ band = "WV" -> Bright("2264.9", "9.1124", cc, sc, n)
    [] sat = "GOES-E" /\ band = "IR" -> (IF n < 79 THEN R(163 + n) ELSE RDiv(n + 405, 2))
    [] sat = "GOES-W" /\ band = "IR" -> RAdd(RMul(RDiv(n, 255), 159), R("159.1"))
    [] sat = "GMS" /\ band = "IR" -> RDiv(GmsIr[n + 1], 100)
    [] sat = "GMS" /\ band = "VH" -> LET q == RDiv(4 * (n \div 4), 252) IN RMul(q, q)
    [] band \in {"VIS", "VH"} -> RDiv(RMul(100, n), 255)
    [] OTHER -> R("1")
=============================================================================
