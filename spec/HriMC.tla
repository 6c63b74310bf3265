------------------------------- MODULE HriMC -------------------------------
(* The reader of HRI files: it goes through the file once, frame by frame, and
   puts each data line into an image.  Checked: it ends exactly at the end of
   the file, fills every line of every image, reads no sync bytes as pixels,
   and each pixel comes from where PixelAt says.
   The heights of the images are cut to a few turns. *)
EXTENDS HriFile, FiniteSets, TLC
CONSTANTS NTurns
VARIABLES fmt, tec, pos, line, seen, label

vars == <<fmt, tec, pos, line, seen, label>>
Lines == NTurns * Len(Turn(fmt))
Init == \/ /\ fmt \in Formats /\ tec \in BOOLEAN /\ pos = 0 /\ line = -1 /\ seen = {} /\ label = <<>>
        \/ /\ fmt = "" /\ tec = FALSE /\ pos = 0 /\ line = -1 /\ seen = {}
           /\ label \in {[k \in 1..24 |-> CASE k = 13 -> a [] k = 14 -> s [] k = 15 -> n [] k = 16 -> i [] k = 17 -> w [] OTHER -> 0] :
                         a \in {0, 255, 15, 240}, s \in {0, 15, 240, 255}, n \in {0, 15, 240, 255}, i \in {0, 255}, w \in {0, 255}}
Header == /\ fmt # "" /\ line = -1
          /\ pos' = (IF tec THEN 2048 + (IF IsA(fmt) THEN 1536 ELSE 0) ELSE pos + Frame * (4 + (IF IsA(fmt) THEN 4 ELSE 0)))
          /\ line' = 0 /\ UNCHANGED <<fmt, tec, seen, label>>
\* the fields of the next data line, at the positions reached
Line == /\ fmt # "" /\ line >= 0 /\ line < Lines
        /\ LET turn == line \div Len(Turn(fmt)) d == Turn(fmt)[1 + (line % Len(Turn(fmt)))] IN
           seen' = seen \union {<<d[1], turn * PerTurn(fmt, d[1]) + d[2], d[3], pos>>}
        /\ pos' = pos + LineLen(tec, fmt) /\ line' = line + 1 /\ UNCHANGED <<fmt, tec, label>>
Next == Header \/ Line
Spec == Init /\ [][Next]_vars

\* the fields of a line hold one line, apart from each other, after the sync bytes and within the line
Framing == fmt # "" /\ line = -1 =>
  LET fs == Fields(tec, fmt) IN
  /\ In(fs, 0) = fs[1][1] /\ In(fs, LineWidth(fmt) - 1) = fs[Len(fs)][1] + fs[Len(fs)][2] - 1
  /\ \A k \in DOMAIN fs : /\ fs[k][1] + fs[k][2] <= LineLen(tec, fmt)
                          /\ \A q \in SyncsOfLine(tec, fmt) : q + 4 <= fs[k][1] \/ q >= fs[k][1] + fs[k][2]
                          /\ k < Len(fs) => fs[k][1] + fs[k][2] <= fs[k + 1][1]
  /\ \A k \in DOMAIN Images(fmt) : LET m == Images(fmt)[k] IN
       /\ m.h = Turns(fmt) * PerTurn(fmt, k)
       /\ m.w = LineWidth(fmt) * PerTurn(fmt, k)
\* with all turns the file ends where the reader does
AtEnd == fmt # "" /\ line = Lines => /\ pos = HeadLen(tec, fmt) + Lines * LineLen(tec, fmt)
                                     /\ FileLen(tec, fmt) - pos = (DataLines(fmt) - Lines) * LineLen(tec, fmt)
Filled == fmt # "" /\ line = Lines =>
  \A k \in DOMAIN Images(fmt) : \A y \in 0..(NTurns * PerTurn(fmt, k) - 1) :
    \A h \in (IF Split(fmt, k) THEN {1, 2} ELSE {0}) : Cardinality({q \in seen : q[1] = k /\ q[2] = y /\ q[3] = h}) = 1
\* samples of x at the seams
Xs(m) == {0, 1, 167, 168, 295, 296, 327, 328, 623, 624, 655, 656, 687, 688, 1047, 1048, 1246, 1247, 1248, 1249} \union
         {x \in {1250, 1251, 1659, 1660, 2455, 2456, 2496, 2497, 2498, 2499, 2500, 4996, 4997, 4998, 4999} : x < m.w}
Where == fmt # "" /\ line = Lines =>
  \A k \in DOMAIN Images(fmt) : \A y \in 0..(NTurns * PerTurn(fmt, k) - 1) : \A x \in Xs(Images(fmt)[k]) : Carried(fmt, k, x) =>
    \E q \in seen : /\ q[1] = k /\ q[2] = y /\ q[3] = HalfOf(fmt, k, x)
                    /\ PixelAt(tec, fmt, k, y, x) = q[4] + In(Fields(tec, fmt), InLine(fmt, k, x))
                    /\ InLine(fmt, k, x) \in 0..(LineWidth(fmt) - 1)
\* one format for each label; it is one of the disseminated ones exactly when the label says so
Labelled == label # <<>> =>
  LET f == FormatOf(label) a == label[13] s == label[14] n == label[15] i == label[16] # 0 w == label[17] # 0 IN
  /\ (f \in Formats) = (/\ a \in {0, 255, 15}
                        /\ LET v == s # 0 \/ n # 0 h == s = 255 \/ n = 255 IN
                           IF w THEN ~v /\ (a = 15 => ~i)
                           ELSE CASE a = 0 -> v /\ (i => h)
                                  [] a = 255 -> v /\ i
                                  [] a = 15 -> (i /\ ~v) \/ (~i /\ v /\ h))
  /\ f \in Formats => (IsA(f) = (a = 0)) /\ (IsB(f) = (a = 255))
=============================================================================
