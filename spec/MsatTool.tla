------------------------------ MODULE MsatTool ------------------------------
(* The msat command: for every file named, in order, open it, calibrate it if
   asked, crop, resize and select bands, amend the metadata, and then show it,
   copy it in another format, or make a gray image of each band.

   A request r: files: sequence of [gfile] or [name]; action: "view", "viewmore",
   "conv", "png", "jpg"; and, when asked, drv, force, bands, srcwin, area (or
   around), size, stretch, copymd.                                           *)
EXTENDS Raster

\* --- the name of the output -------------------------------------------------
RECURSIVE Escaped(_)
Escaped(t) == IF t = "" THEN "" ELSE LET c == SubSeq(t, 1, 1) IN (IF c \in {" ", "."} THEN "_" ELSE c) \o Escaped(SubSeq(t, 2, Len(t)))
Absent == "(none)"
\* "2006-11-14 12:00:00" is 20061114_1200
StampName(dt) == IF dt = Absent THEN ""
                 ELSE SubSeq(dt, 1, 4) \o SubSeq(dt, 6, 7) \o SubSeq(dt, 9, 10) \o "_" \o SubSeq(dt, 12, 13) \o SubSeq(dt, 15, 16)
SatNumber(d) == IF d.scid = Absent THEN -1 ELSE IntOf(d.scid)
ChannelPart(d, b) ==
    LET id == IF b.chid = Absent THEN -1 ELSE IntOf(b.chid)
        level == Escaped(ChanLevel(SatNumber(d), id))
    IN (IF level = "" THEN "" ELSE level \o "_") \o (IF b.chan = Absent THEN "" ELSE Escaped(b.chan)) \o "_"
OutputName(d, k) ==    \* k: the band, or 0 for the dataset
    (IF d.sc = Absent THEN "unknown" ELSE Escaped(d.sc)) \o "_" \o SensorName(SatNumber(d)) \o "_"
    \o (IF k > 0 THEN ChannelPart(d, d.bands[k]) ELSE IF Len(d.bands) = 1 THEN ChannelPart(d, d.bands[1]) ELSE "")
    \o StampName(d.dt)
Extension(drv) == CASE drv = "GTiff" -> ".tif" [] drv = "MsatGRIB" -> ".grib" [] OTHER -> ""

\* --- which bands --------------------------------------------------------------
\* an index as it is, a name as the first band that has it
Found(d, name) == {k \in 1..Len(d.bands) : d.bands[k].desc = name}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE Selected(_, _)
Selected(d, l) == IF l = <<>> THEN <<>>
                  ELSE LET e == Head(l)
                       IN (IF "n" \in DOMAIN e THEN <<e.n>>
                           ELSE IF Found(d, e.name) = {} THEN <<>> ELSE <<First(Found(d, e.name))>>) \o Selected(d, Tail(l))

\* --- which part -----------------------------------------------------------------
\* the point of the projection of a place on the Earth
ToGround(d, lat, lon) ==
    IF "lon" \notin DOMAIN d.srs THEN [on |-> TRUE, px |-> lon, py |-> lat]
    ELSE LET f == RDiv(1, InvF)
             rp == RSub(1, f)
             one == RMul(rp, rp)
             g1 == RDiv(d.srs.h, EarthA)
             g == RAdd(1, g1)
             lam == Rad(RSub(lon, d.srs.lon))
             phi == RAtan(RMul(one, RTan(Rad(lat))))
             r == RDiv(rp, RSqrt(RAdd(RMul(RMul(rp, RCos(phi)), RMul(rp, RCos(phi))), RMul(RSin(phi), RSin(phi)))))
             vx == RMul(r, RMul(RCos(lam), RCos(phi)))
             vy == RMul(r, RMul(RSin(lam), RCos(phi)))
             vz == RMul(r, RSin(phi))
             t == RSub(g, vx)
         IN IF RLt(RSub(RSub(RMul(t, vx), RMul(vy, vy)), RDiv(RMul(vz, vz), one)), 0) THEN [on |-> FALSE, px |-> 0, py |-> 0]
            ELSE [on |-> TRUE, px |-> RMul(EarthA, RMul(g1, RAtan(RDiv(vy, t)))),
                               py |-> RMul(EarthA, RMul(g1, RAtan(RDiv(vz, RSqrt(RAdd(RMul(vy, vy), RMul(t, t)))))))]
\* whole pixels; a half may go either way
Whole(v) == {RInt(RFloor(RAdd(v, R("0.4999")))), RInt(RFloor(RAdd(v, R("0.5001"))))}
Georeferenced(d) == d.gt # <<>> /\ Invertible(d.gt) /\ d.srs.proj # "(none)"
Lows(ps) == LET all == UNION ps IN {v \in all : (\A p \in ps : \E w \in p : v <= w) /\ (\E p \in ps : v \in p)}
Highs(ps) == LET all == UNION ps IN {v \in all : (\A p \in ps : \E w \in p : v >= w) /\ (\E p \in ps : v \in p)}
\* the windows that hold the corners of an area; none: it cannot be had
AreaWindows(d, a) ==
    IF ~Georeferenced(d) THEN {}
    ELSE LET at == {ToGround(d, lat, lon) : lat \in {a[1], a[2]}, lon \in {a[3], a[4]}}
             q == InvGt(d.gt)
             xs == {Whole(RAdd(q[1], RAdd(RMul(p.px, q[2]), RMul(p.py, q[3])))) : p \in at}
             ys == {Whole(RAdd(q[4], RAdd(RMul(p.px, q[5]), RMul(p.py, q[6])))) : p \in at}
             more(b, c) == IF c - b < 1 THEN 1 ELSE c - b
         IN IF \E p \in at : ~p.on THEN {}
            ELSE {<<x0, y0, more(x0, x1), more(y0, y1)>> : x0 \in Lows(xs), x1 \in Highs(xs), y0 \in Lows(ys), y1 \in Highs(ys)}
AreaOf(r) == IF "around" \in DOMAIN r
             THEN LET a == r.around IN <<RSub(a[1], RDiv(a[3], 2)), RAdd(a[1], RDiv(a[3], 2)), RSub(a[2], RDiv(a[4], 2)), RAdd(a[2], RDiv(a[4], 2))>>
             ELSE r.area
HasArea(r) == "area" \in DOMAIN r \/ "around" \in DOMAIN r
Windows(d, r) == IF HasArea(r) THEN AreaWindows(d, AreaOf(r)) ELSE IF "srcwin" \in DOMAIN r THEN {r.srcwin} ELSE {<<>>}

\* --- how large --------------------------------------------------------------------
\* images made without saying a part or a size fit in this many pixels each way
Cap == 1280
AtLeast1(n) == IF n < 1 THEN 1 ELSE n
Reduced(n, top, of) == {AtLeast1((n * top) \div of), AtLeast1(((n * top) + of - 1) \div of)}
Capped(d) ==
    LET wide == IF d.xs > Cap THEN {<<Cap, y>> : y \in Reduced(d.ys, Cap, d.xs)} ELSE {<<d.xs, d.ys>>}
    IN UNION {IF z[2] > Cap THEN {<<x, Cap>> : x \in Reduced(z[1], Cap, z[2])} ELSE {z} : z \in wide}
IsImage(r) == r.action \in {"png", "jpg"}
Sizes(d, r) ==
    IF "size" \in DOMAIN r THEN {r.size}
    ELSE IF IsImage(r) /\ ~HasArea(r) /\ "srcwin" \notin DOMAIN r /\ Capped(d) # {<<d.xs, d.ys>>}
         THEN {[k \in 1..2 |-> [pct |-> FALSE, n |-> z[k]]] : z \in Capped(d)} ELSE {<<>>}

None == [x \in {} |-> 0]
Requests(d, r) ==
    LET bands == IF "bands" \in DOMAIN r THEN [bands |-> Selected(d, r.bands)] ELSE None
    IN {bands @@ (IF w = <<>> THEN None ELSE [srcwin |-> w]) @@ (IF z = <<>> THEN None ELSE [size |-> z]) : w \in Windows(d, r), z \in Sizes(d, r)}

\* --- metadata of another file -------------------------------------------------------
Amended(d, t) ==
    [d EXCEPT !.dt = t.dt, !.scid = t.scid, !.sc = t.sc, !.drv = "VRT",
              !.bands = [k \in 1..Len(d.bands) |-> IF k > Len(t.bands) THEN d.bands[k]
                            ELSE [d.bands[k] EXCEPT !.desc = t.bands[k].desc, !.chan = t.bands[k].chan, !.chid = t.bands[k].chid]]]

\* --- gray images ----------------------------------------------------------------------
Few(d) == d.xs * d.ys <= 400
Pixels(d) == (0..d.xs - 1) \X (0..d.ys - 1)
\* what is known of a band: the value of every pixel (or that it has several candidates)
Values(d, b) == [p \in Pixels(d) |-> Px(d, b, p[1], p[2])]
Readable(d, b) == ~Few(d) \/ \A p \in Pixels(d) : Px(d, b, p[1], p[2]) # {}
Missing(d, b, e) == d.bands[b].nodata # <<>> /\ REq(e, d.bands[b].nodata[1])
Least(S) == CHOOSE e \in S : \A f \in S : RLe(e, f)
Most(S) == CHOOSE e \in S : \A f \in S : RLe(f, e)
\* of, at: value and level of every pixel; good: those not missing
Ends(of, good, r) == IF "stretch" \in DOMAIN r THEN r.stretch ELSE LET seen == {of[p] : p \in good} IN <<Least(seen), Most(seen)>>
LevelsOK(of, good, r, at) ==
    LET lo == Ends(of, good, r)[1]
        hi == Ends(of, good, r)[2]
    IN IF RLt(lo, hi)
       THEN \A p \in good : LET e == RMul(255, RDiv(RSub(RMax(lo, RMin(hi, of[p])), lo), RSub(hi, lo))) IN RClose(at[p], e, 0, R("1.0005"))
       ELSE REq(lo, hi) => \A p, q \in good : REq(of[p], of[q]) => REq(at[p], at[q])
GrayOK(o, d, b, r) ==
    /\ o.what = "img" /\ o.xs = d.xs /\ o.ys = d.ys
    /\ (r.action = "png" /\ Few(d)) =>
         LET vs == Values(d, b)
             one == \A p \in DOMAIN vs : \E e \in vs[p] : \A f \in vs[p] : REq(e, f)
             of == [p \in DOMAIN vs |-> CHOOSE e \in vs[p] : TRUE]
             good == {p \in DOMAIN vs : ~Missing(d, b, of[p])}
         IN (one /\ good # {}) =>
              /\ Len(o.v) = d.xs * d.ys
              /\ LevelsOK(of, good, r, [p \in DOMAIN vs |-> o.v[p[2] * d.xs + p[1] + 1]])

\* --- the whole run ---------------------------------------------------------------------
\* acc: outs: name -> what it must be; views: what was shown; tried: names that may be there, somehow
ToolOpen(s, f) == IF "gfile" \in DOMAIN f THEN IF f.gfile \in DOMAIN s.files THEN s.files[f.gfile] ELSE Fails ELSE OpenXrit(s, f.name, "")
Stop(acc) == {[code |-> 1] @@ acc}
\* what it would write
Targets(r, d) == CASE IsImage(r) -> {OutputName(d, k) \o "." \o r.action : k \in 1..Len(d.bands)}
                   [] r.action = "conv" -> {OutputName(d, 0) \o Extension(r.drv)}
                   [] OTHER -> {}
Acted(s, r, d, acc) ==
    CASE r.action \in {"view", "viewmore"} -> [acc EXCEPT !.views = Append(@, d)]
      [] IsImage(r) -> [acc EXCEPT !.outs = [n \in {OutputName(d, k) \o "." \o r.action : k \in 1..Len(d.bands)} |->
                                               [what |-> "img", d |-> d, b |-> CHOOSE k \in 1..Len(d.bands) :
                                                     OutputName(d, k) \o "." \o r.action = n /\ \A j \in k + 1..Len(d.bands) : OutputName(d, j) \o "." \o r.action # n]] @@ @]
      [] r.action = "conv" -> [acc EXCEPT !.outs = (OutputName(d, 0) \o Extension(r.drv) :> [what |-> "ds", d |-> Made(d, r.drv, "msat/wmo", Px)]) @@ @]
Possible(s, r, d) ==
    IF IsImage(r) THEN \A b \in 1..Len(d.bands) : Readable(d, b)
    ELSE r.action = "conv" => r.drv \in {"GTiff", "MsatGRIB"} /\ Good(Made(d, r.drv, "msat/wmo", Px)) /\ \A b \in 1..Len(d.bands) : Readable(d, b)
RECURSIVE Run(_, _, _, _)
Run(s, r, k, acc) ==
    IF k > Len(r.files) THEN {[code |-> 0] @@ acc}
    ELSE LET d0 == ToolOpen(s, r.files[k]) IN
         IF ~Good(d0) THEN Stop(acc)
         ELSE LET d1 == IF "force" \in DOMAIN r THEN Calibrated(d0) ELSE d0 IN
              IF "bands" \in DOMAIN r /\ Selected(d1, r.bands) = <<>> THEN Run(s, r, k + 1, acc)
              ELSE IF Windows(d1, r) = {} THEN Stop(acc)
              ELSE UNION {LET d2 == Translated(d1, q)
                              md == IF "copymd" \in DOMAIN r THEN ToolOpen(s, r.copymd) ELSE d1
                          IN IF ~Good(d2) \/ ~Good(md) THEN Stop(acc)
                             ELSE LET d3 == IF "copymd" \in DOMAIN r THEN Amended(d2, md) ELSE d2
                                  IN IF Possible(s, r, d3) THEN Run(s, r, k + 1, Acted(s, r, d3, acc))
                                     \* those of the same name may have gone
                                     ELSE Stop([acc EXCEPT !.outs = [n \in (DOMAIN @) \ Targets(r, d3) |-> @[n]], !.tried = Targets(r, d3)]) : q \in Requests(d1, r)}
Runs(s, r) == Run(s, r, 1, [outs |-> None, views |-> <<>>, tried |-> {}])
=============================================================================
