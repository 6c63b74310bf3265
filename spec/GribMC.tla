------------------------------- MODULE GribMC -------------------------------
(* Images written as GRIB, read back, cropped, written again. *)
EXTENDS Raster, Json
CONSTANTS MaxOps
VARIABLES d, hist, cx, cy, start, vals
vars == <<d, hist, cx, cy, start, vals>>
Starts == [hrv : {FALSE, TRUE}, ofs : {R("-1855.8"), R("-300"), R("0.3")}, chan : {1, 9, 12}, nodata : {<<>>, <<36>>}]
Dataset(z) ==
    LET ps == IF z.hrv THEN PixelH ELSE PixelN IN
    [MemDataset([xs |-> 5, ys |-> 4, nb |-> 1, mod |-> 251, type |-> "UInt16",
                 gt |-> <<RMul(z.ofs, ps), ps, 0, RNeg(RMul(RAdd(z.ofs, R("0.1")), ps)), 0, RNeg(ps)>>,
                 srs |-> [lon |-> R("9.5")], scale |-> R("0.5"), ofs |-> -7,
                 dt |-> "2006-11-14 12:45:30", jday |-> 318, hour |-> R("12.75"), scid |-> "55", sc |-> "MSG1",
                 chan |-> ChanName(55, z.chan), chid |-> ToString(z.chan), nchan |-> z.chan])
     EXCEPT !.bands[1].nodata = z.nodata]
Wins == {<<0, 0, 5, 4>>, <<1, 1, 3, 2>>, <<2, 0, 1, 1>>, <<1, 0, 2, 2>>, <<-1, 0, 2, 2>>}
Acts == {[act |-> "write", tpl |-> t] : t \in Templates \cup {"msat/other"}} \cup {[act |-> "crop", srcwin |-> w] : w \in Wins}
\* evaluated once per image: recursion through a chain of views would be paid at every pixel
P(e, b, x, y) == vals[<<x, y>>]
Result(a) == IF a.act = "write" THEN GribOf(d, a.tpl, P) ELSE Translated(d, [srcwin |-> a.srcwin])
Values(e) == [p \in (0..e.xs - 1) \X (0..e.ys - 1) |-> Px(e, 1, p[1], p[2])]
Init == \E z \in Starts : start = z /\ d = Dataset(z) /\ hist = <<>> /\ cx = 0 /\ cy = 0 /\ vals = Values(Dataset(z))
Next == /\ Len(hist) < MaxOps /\ Good(d)
        /\ \E a \in Acts : LET t == Result(a) IN
              /\ hist' = Append(hist, a)
              /\ d' = t
              /\ cx' = IF a.act = "crop" /\ Good(t) /\ a.srcwin # <<0, 0, d.xs, d.ys>> THEN cx + a.srcwin[1] ELSE cx
              /\ cy' = IF a.act = "crop" /\ Good(t) /\ a.srcwin # <<0, 0, d.xs, d.ys>> THEN cy + a.srcwin[2] ELSE cy
              /\ vals' = IF Good(t) THEN Values(t) ELSE vals
              /\ UNCHANGED start
Nodatas == {e \in {d.bands[1].nodata} : e # <<>>}
Physical(v) == RAdd(RMul(v, R(d.bands[1].scale)), R(d.bands[1].ofs))
\* a pixel keeps its value, and what was missing stays so
SameValues == Good(d) =>
    \A p \in DOMAIN vals :
        LET n == Pattern(1, p[1] + cx, p[2] + cy, 251)
            e == RAdd(RMul(n, R("0.5")), -7)
            gone == start.nodata # <<>> /\ n = start.nodata[1]
        IN \A v \in vals[p] : IF gone THEN REq(v, d.bands[1].nodata[1]) ELSE REq(Physical(v), e)
\* and its place, to half a pixel
SamePlace == Good(d) =>
    LET g == Dataset(start).gt
        tol == RMul(IF start.hrv THEN R("0.52") ELSE R("0.5001"), g[2])
    IN /\ RClose(d.gt[1], RAdd(g[1], RMul(cx, g[2])), 0, tol) /\ RClose(d.gt[4], RAdd(g[4], RMul(cy, g[6])), 0, tol)
       /\ RClose(d.gt[2], g[2], R("0.00002"), 0) /\ RClose(d.gt[6], g[6], R("0.00002"), 0)
SameIdentity == Good(d) => d.scid = "55" /\ d.bands[1].chan = ChanName(55, start.chan) /\ SubSeq(d.dt, 1, 16) = "2006-11-14 12:45"
\* once on the grid, writing again moves nothing
Settled == (Good(d) /\ d.kind = "grib" /\ ~start.hrv) =>
    LET e == GribOf(d, "msat/wmo", P) IN Good(e) => \A k \in 1..6 : RClose(e.gt[k], d.gt[k], R("0.0000001"), 0)
Emit == (hist # <<>> /\ (~Good(d) \/ Len(hist) = MaxOps)) => PrintT("@E " \o ToJson([start |-> start, hist |-> hist]))
=============================================================================
