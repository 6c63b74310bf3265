---------------------------- MODULE ViewersTrace ----------------------------
(* What the commands were seen to do. *)
EXTENDS Viewers, TraceBase
N == INSTANCE NativeFile

\* state: the product p and the native file nf there are
MyStarts(r) == {[p |-> <<>>, nf |-> <<>>]}
Cov(r) == [ls |-> r.cov[1], ln |-> r.cov[2], le |-> r.cov[3], lw |-> r.cov[4], us |-> r.cov[5], un |-> r.cov[6], ue |-> r.cov[7], uw |-> r.cov[8]]
Has(g, x) == x \in DOMAIN g
\* a file with less than its header says
FileLen(r, g) == LET n == IF Has(g, "segl") THEN g.segl ELSE r.segl
                     w == IF Has(g, "cols") THEN g.cols ELSE r.cols
                     c == IF Has(g, "cut") THEN g.cut ELSE 0
                 IN 166 + 13 * n + 2 * n * w - c
Short(r, g) == Has(g, "cut") \/ (Has(g, "keep") /\ g.keep < FileLen(r, g))
Odd(r, g) == \/ Short(r, g) \/ g.seq \notin 1..r.end
             \/ (Has(g, "cols") /\ g.cols # r.cols) \/ (Has(g, "segl") /\ g.segl # r.segl) \/ (Has(g, "end") /\ g.end # r.end)
ProductOf(r) ==
    [hrv |-> r.hrv, cols |-> r.cols, segl |-> r.segl, end |-> r.end, bpp |-> r.bpp, mirrored |-> r.cfac < 0, cov |-> Cov(r),
     present |-> {r.segs[k].seq : k \in DOMAIN r.segs},
     flat |-> LET fl == {k \in DOMAIN r.segs : Has(r.segs[k], "flat")} IN
              [q \in {r.segs[k].seq : k \in fl} |-> r.segs[CHOOSE k \in fl : r.segs[k].seq = q].flat],
     whole |-> r.segs # <<>> /\ \A k \in DOMAIN r.segs : ~Odd(r, r.segs[k]),
     short |-> r.segs = <<>> \/ \E k \in DOMAIN r.segs : Short(r, r.segs[k]),
     pro |-> ~Has(r, "nopro")]
Channel(p) == IF p.hrv THEN "HRV" ELSE "IR_108"
ShortName(p) == "p/H:MSG1:" \o Channel(p) \o ":200611141200"
Failed(o) == o.status \in 1..255 /\ o.said

RECURSIVE Said(_, _, _, _)
Said(p, fs, at, lines) ==
    IF fs = <<>> THEN at = Len(lines) + 1
    ELSE DumpSaid(p, at, lines) /\ Said(p, Tail(fs), at + DumpSize(p), lines)
\* the files before the first that cannot be read
Good(p, f) == f = ShortName(p) /\ ~p.short /\ p.pro
DumpOK(p, r) ==
    LET bad == {k \in DOMAIN r.files : ~Good(p, r.files[k])} IN
    IF r.files = <<>> THEN Failed(r.out)
    ELSE IF bad = {} /\ ~p.whole THEN r.out.status \in 0..255
    ELSE IF bad = {} THEN r.out.status = 0 /\ Said(p, r.files, 1, r.out.lines)
    ELSE /\ Failed(r.out)
         /\ p.whole => \A k \in 1..Min(bad) - 1 : DumpSaid(p, 1 + (k - 1) * DumpSize(p), r.out.lines)

Pairs(rows, At(_, _)) == UNION {{<<At(y - 1, x - 1), rows[y][x]>> : x \in DOMAIN rows[y]} : y \in DOMAIN rows}
Rows(o) == Len(o.img.rows) = o.img.ys /\ \A y \in DOMAIN o.img.rows : Len(o.img.rows[y]) = o.img.xs
Over(v, y, x) == IF x < v.w /\ y < v.h THEN ((x * v.a + y * v.b) % v.n) * v.k ELSE 0
\* g: a scale as parts of 100
Scaled(n, g) == (n * g) \div 100
DrawOK(p, r) ==
    LET o == r.out
        W == ImageW(p) H == ImageH(p)
    IN IF r.wrong \/ ~p.whole THEN Failed(o) /\ o.files = <<>>
       ELSE IF r.nowhere THEN Failed(o)
       ELSE /\ o.status = 0
            /\ o.files = <<"H-MSG1-" \o Channel(p) \o "-200611141200." \o r.fmt>>
            /\ r.fmt = "pgm" =>
                 /\ o.img.what = "image"
                 /\ IF r.g < 100 THEN FitsOK(o.img.xs, o.img.ys, Scaled(W, r.g) + 1, Scaled(H, r.g) + 1)
                    ELSE /\ o.img.xs = W /\ o.img.ys = H /\ Rows(o)
                         /\ LET At(y, x) == ImageAt(p, y, x)
                                over == Has(r, "overlay") /\ ~p.hrv
                            IN IF r.norm THEN over \/ StretchedOK(Pairs(o.img.rows, At))
                               ELSE \A y \in 1..H : \A x \in 1..W :
                                      LET e == At(y - 1, x - 1) + (IF over THEN Over(r.overlay, y - 1, x - 1) ELSE 0)
                                      IN o.img.rows[y][x] = IF e > White THEN White ELSE e

NativeOK(f, r) ==
    LET o == r.out
        m == N!Content(f)
    IN IF ~m.ok THEN Failed(o) /\ o.files = <<>>
       ELSE IF r.ch \notin m.sel THEN Failed(o) /\ o.files = <<>>
       ELSE LET W == m.nc[r.ch] H == m.nl[r.ch] IN
            IF W = 0 \/ H = 0 THEN Failed(o)
            ELSE IF Scaled(W, r.g) = 0 \/ Scaled(H, r.g) = 0 THEN o.status \in 0..255
            ELSE /\ o.status = 0 /\ o.files = <<"MSG1." \o r.fmt>>
                 /\ r.fmt = "pgm" =>
                      /\ o.img.what = "image"
                      /\ IF r.g # 100 THEN FitsOK(o.img.xs, o.img.ys, Scaled(W, r.g) + 1, Scaled(H, r.g) + 1)
                         ELSE /\ o.img.xs = W /\ o.img.ys = H /\ Rows(o)
                              /\ LET rows == N!Image(f, m, r.ch)
                                     At(y, x) == rows[H - y][W - x]
                                 IN StretchedOK(Pairs(o.img.rows, At))

Keep(s, ok) == IF ok THEN {s} ELSE {}
MyStep(s, r) ==
    IF Has(r.out, "exc") THEN {}
    ELSE CASE r.op = "product" -> {[s EXCEPT !.p = ProductOf(r)]}
           [] r.op = "dump" -> Keep(s, DumpOK(s.p, r))
           [] r.op = "draw" -> Keep(s, DrawOK(s.p, r))
           [] r.op = "nfile" -> {[s EXCEPT !.nf = r.d]}
           [] r.op = "ndraw" -> Keep(s, NativeOK(s.nf, r))
           [] r.op = "ndump" -> Keep(s, IF N!Content(s.nf).ok THEN r.out.status = 0 /\ r.out.much ELSE r.out.status \in 1..255)
           [] OTHER -> {}
=============================================================================
