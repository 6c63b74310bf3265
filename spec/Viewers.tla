------------------------------ MODULE Viewers ------------------------------
(* The commands that show xRIT and native files.

   xritdump tells the structure of a product, then for each segment its least
   and greatest sample and a picture of it in 50 x 3 characters, then a picture
   of the whole in 50 x 24.
   XRIT2Image and native2Image make an image file of the samples, rotated so
   that north is up and west is left (lines are stored from the south, samples
   from the east).                                                          *)
EXTENDS SegAccess, TLC

(* --- xritdump ---------------------------------------------------------------- *)
\* the values in a segment (when a line has all the levels, the ends are enough)
ValuesOf(p, s) ==
    IF Flat(p, s) THEN {p.flat[s]}
    ELSE IF p.cols >= Levels(p) - 1 THEN {1, Levels(p) - 1}
    ELSE {Stored(p, s, l, c) : l \in 0..p.segl - 1, c \in 0..p.cols - 1}
EndsOf(p, s) == LET vs == ValuesOf(p, s) IN <<Min(vs), Max(vs)>>
EndsOfAll(p) == LET es == {EndsOf(p, s) : s \in p.present} IN <<Min({e[1] : e \in es}), Max({e[2] : e \in es})>>
Inks == <<" ", ".", ",", "-", ":", "=", "$", "#">>
\* how a sample is drawn, among samples from lo to hi
Ink(v, lo, hi) ==
    IF v < lo THEN {" "}
    ELSE IF lo = hi THEN {Inks[k] : k \in 1..8}
    ELSE {Inks[IF v = hi THEN 8 ELSE 1 + ((8 * (v - lo)) \div (hi - lo))]}
PicW == 50
SegH == 3
AllH == 24
SegDot(p, s, y, x) == Stored(p, s, (y * p.segl) \div SegH, (x * p.cols) \div PicW)
Side(p) == IF p.hrv THEN FullHRV ELSE FullDisc
\* the sample at column x of line n of the full disc; 0: none
Disc(p, n, x) == LET c == x - StartOf(p, n) IN IF c < 0 \/ c >= p.cols THEN 0
                 ELSE IF ~HasData(p, n) THEN 0
                 ELSE Stored(p, SegOf(p, n), LineIn(p, n), IF p.mirrored THEN p.cols - 1 - c ELSE c)
AllDot(p, y, x) == Disc(p, (y * Side(p)) \div AllH, (x * Side(p)) \div PicW)

Named(n, v) == n \o ": " \o ToString(v)
Head1(p) == << Named("Columns", p.cols), Named("Lines", p.segl * p.end), Named("Segments", Max(p.present)),
               Named("Pixels per segment", p.cols * p.segl), Named("Scanlines per segment", p.segl),
               "East is: " \o (IF p.mirrored THEN "left" ELSE "right"), "North is: down",
               "HRV: " \o (IF p.hrv THEN "yes" ELSE "no") >>
Head2(p) == IF p.hrv THEN << Named("LowerEastColumnActual", p.cov.le), Named("LowerSouthLineActual", p.cov.ls),
                             Named("LowerWestColumnActual", p.cov.lw), Named("LowerNorthLineActual", p.cov.ln),
                             Named("UpperEastColumnActual", p.cov.ue), Named("UpperSouthLineActual", p.cov.us),
                             Named("UpperWestColumnActual", p.cov.uw), Named("UpperNorthLineActual", p.cov.un) >>
            ELSE << "SouthLineActual: 1", "WestColumnActual: 1" >>
Two(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Drawn(line, before, Dot(_), lo, hi) ==
    /\ Len(line) = Len(before) + PicW
    /\ SubSeq(line, 1, Len(before)) = before
    /\ \A x \in 0..PicW - 1 : SubSeq(line, Len(before) + x + 1, Len(before) + x + 1) \in Ink(Dot(x), lo, hi)
SegSize(p, s) == IF s \in p.present THEN 1 + SegH ELSE 1
SegSaid(p, s, at, lines) ==     \* the lines from at on
    LET title == "Segment " \o ToString(s - 1) \o ": " IN
    IF s \notin p.present THEN lines[at] = title \o "missing."
    ELSE \E e \in {EndsOf(p, s)} :
         /\ lines[at] = title \o "min " \o ToString(e[1]) \o " max " \o ToString(e[2])
         /\ \A y \in 0..SegH - 1 : Drawn(lines[at + 1 + y], Two(s - 1) \o " ", LAMBDA x : SegDot(p, s, y, x), e[1], e[2])
RECURSIVE SegsSize(_, _)
SegsSize(p, s) == IF s = 0 THEN 0 ELSE SegSize(p, s) + SegsSize(p, s - 1)
HeadSize(p) == Len(Head1(p)) + Len(Head2(p))
DumpSize(p) == HeadSize(p) + SegsSize(p, Max(p.present)) + 1 + AllH + 1
\* the lines from at (counting from 1) on tell of p
DumpSaid(p, at, lines) ==
    LET n == SegsSize(p, Max(p.present))
        b == at + HeadSize(p)
    IN /\ Len(lines) >= at + DumpSize(p) - 1
       /\ SubSeq(lines, at, b - 1) = Head1(p) \o Head2(p)
       /\ \A s \in 1..Max(p.present) : SegSaid(p, s, b + SegsSize(p, s - 1), lines)
       /\ lines[b + n] = "Composite image:"
       /\ \E e \in {EndsOfAll(p)} : \A y \in 0..AllH - 1 : Drawn(lines[b + n + 1 + y], "", LAMBDA x : AllDot(p, y, x), e[1], e[2])
       /\ lines[b + n + 1 + AllH] = ""

(* --- images -------------------------------------------------------------------- *)
\* row y, column x (from 0) of the image of a product
ImageW(p) == p.cols
ImageH(p) == p.segl * p.end
ImageAt(p, y, x) ==
    LET l == ImageH(p) - 1 - y
        s == (l \div p.segl) + 1
    IN IF s \in p.present THEN Stored(p, s, l % p.segl, p.cols - 1 - x) ELSE 0
White == 65535
\* contrast stretched: levels keep the order of the samples, the least is black and the greatest white
StretchedOK(pairs) ==
    /\ \A a \in pairs : a[2] \in 0..White
    /\ \A a, b \in pairs : (a[1] = b[1] => a[2] = b[2]) /\ (a[1] < b[1] => a[2] <= b[2])
    /\ Cardinality({a[1] : a \in pairs}) > 1 =>
         LET vs == {a[1] : a \in pairs} IN \A a \in pairs : (a[1] = Min(vs) => a[2] = 0) /\ (a[1] = Max(vs) => a[2] = White)
\* reduced to fit: at most that large, and as large as that one way
FitsOK(w, h, W, H) == w \in 1..W /\ h \in 1..H /\ (w >= W - 2 \/ h >= H - 2)
=============================================================================
