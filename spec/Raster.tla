------------------------------- MODULE Raster -------------------------------
(* Datasets as their users see them: sizes, georeferencing, metadata, bands and
   pixel values.  A dataset is what its files hold (xRIT product, GRIB message,
   memory), or a view computed from other datasets: reflectance, angles, day of
   year, calibration, crops and resamplings.  `Px' gives the value of a pixel of
   any dataset by recursion on how it was made; whatever order pixels are asked
   in, and whatever else is open, that is the value.

   World: pros, epis, prods: what is on disk, by identity; ds: open datasets by
   number; files: single-file datasets by name; grs: georeferencers.          *)
EXTENDS SegAccess, Sky, Grid, Codes, XritNames, TLC

\* --- numbers as text -------------------------------------------------------
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
P4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Stamp(c, h, mi, se) == P4(c.y) \o "-" \o P2(c.m) \o "-" \o P2(c.d) \o " " \o P2(h) \o ":" \o P2(mi) \o ":" \o P2(se)

NoSrs == [proj |-> "(none)"]
Geos(lon) == [proj |-> "Geostationary_Satellite", lon |-> lon, h |-> GeosH, fe |-> 0, fn |-> 0, a |-> EarthA, rf |-> InvF]

\* --- xRIT products ---------------------------------------------------------
PField(s, n) == PadTo(s, n)
\* "p//" is the directory "p"
RECURSIVE TidyDir(_)
TidyDir(d) == IF Len(d) > 1 /\ d[Len(d)] = 47 THEN TidyDir(Sub(d, 1, Len(d) - 1)) ELSE d
ProKey(k) == <<TidyDir(k.dir), k.res, PField(k.p1, 12), k.time>>
ProdKey(k) == <<TidyDir(k.dir), k.res, PField(k.p1, 12), k.time, PField(k.p2, 9)>>

ProductOf(r) == [hrv |-> r.chan = 12, cols |-> r.cols, segl |-> r.segl, bpp |-> r.bpp, mirrored |-> r.cfac < 0,
                 present |-> {r.segs[k].seq : k \in 1..Len(r.segs)} \ {0},
                 cut |-> {r.segs[k].seq : k \in {j \in 1..Len(r.segs) : "cut" \in DOMAIN r.segs[j]}},
                 chan |-> r.chan, sc |-> r.sc, lon |-> r.lon, big |-> r.big, cov |-> <<>>]
CovOf(c) == [ls |-> c[1], ln |-> c[2], lw |-> c[4], us |-> c[5], un |-> c[6], uw |-> c[8]]
ProOf(r) == [day |-> r.day, ms |-> r.ms, step |-> r.step, stephrv |-> r.stephrv, lstep |-> r.lstep, lstephrv |-> r.lstephrv, slope |-> [c \in 1..12 |-> RAdd(r.slope, RMul(R("0.001"), c))],
             ofs |-> [c \in 1..12 |-> RSub(r.ofs, RMul(R("0.25"), c))]]

XTime(pro) == LET t == pro.ms \div 60000
              IN [c |-> Civil(pro.day + t \div 1440), h |-> (t % 1440) \div 60, mi |-> t % 60]

XWidth(p) == IF p.hrv THEN FullHRV ELSE FullDisc
LevelsOf(p) == IF p.big # 0 THEN p.big ELSE Levels(p)
XCount(p, x, y) ==   \* the count of a pixel, or -1 when its line cannot be had
    LET st == StartOf(p, y)
    IN IF st + p.cols > XWidth(p) \/ st < 0 THEN -1
       ELSE IF ~HasData(p, y) THEN 0
       ELSE IF SegOf(p, y) \in p.cut THEN -1
       ELSE IF Thermal(p.chan) /\ LevelsOf(p) > 2^p.bpp /\ \E c \in 0..p.cols - 1 :
                 1 + ((SegOf(p, y) * 331 + LineIn(p, y) * 37 + c * 7) % (LevelsOf(p) - 1)) >= 2^p.bpp THEN -1
       ELSE IF x < st \/ x >= st + p.cols THEN 0
       ELSE LET c == IF p.mirrored THEN p.cols - 1 - (x - st) ELSE x - st
            IN 1 + ((SegOf(p, y) * 331 + LineIn(p, y) * 37 + c * 7) % (LevelsOf(p) - 1))
InData(p, x, y) == HasData(p, y) /\ x \in StartOf(p, y)..StartOf(p, y) + p.cols - 1
Kelvin(c, n, slope, ofs) ==
    LET t == RFloat(Brightness(c, RAdd(RMul(n, slope), ofs)))
    IN IF RIsNaN(t) \/ RLt(t, 0) THEN R(0) ELSE t

XBand(p, pro) ==
    LET id == SatOfHRIT(p.sc)
    IN [type |-> IF Thermal(p.chan) THEN "Float32" ELSE "UInt16", chan |-> ChanName(id, p.chan), chid |-> ToString(p.chan),
        desc |-> ChanName(id, p.chan), unit |-> ChanUnit(id, p.chan),
        scale |-> IF Thermal(p.chan) THEN 1 ELSE pro.slope[p.chan], ofs |-> IF Thermal(p.chan) THEN 0 ELSE pro.ofs[p.chan],
        nodata |-> <<0>>, bx |-> XWidth(p), by |-> 1]
XDataset(p, pro) ==
    LET id == SatOfHRIT(p.sc)
        w == XWidth(p)
        g == RFloat(RMul(1000, RFloat(IF p.hrv THEN pro.stephrv ELSE pro.step)))
        gl == RFloat(RMul(1000, RFloat(IF p.hrv THEN pro.lstephrv ELSE pro.lstep)))
        t == XTime(pro)
    IN [kind |-> "xrit", xs |-> w, ys |-> w,
        gt |-> <<RMul(-(w \div 2), g), g, 0, RMul(w \div 2, gl), 0, RNeg(gl)>>,
        srs |-> Geos(p.lon), dt |-> Stamp(t.c, t.h, t.mi, 0), jday |-> DayOfYear(t.c.y, t.c.m, t.c.d),
        hour |-> RAdd(t.h, RDiv(t.mi, 60)), scid |-> ToString(id), sc |-> SatName(id), drv |-> "MsatXRIT",
        bands |-> <<XBand(p, pro)>>, p |-> p, pro |-> pro, chan |-> p.chan]

\* --- opening by name -------------------------------------------------------
Foreign == [kind |-> "foreign"]      \* not ours: another driver may try
Fails == [kind |-> "fails"]          \* ours, and it cannot be had: an error is reported
Good(d) == d.kind \notin {"foreign", "fails"}

IR039 == <<73, 82, 95, 48, 51, 57>>
IR108 == <<73, 82, 95, 49, 48, 56>>
IR134 == <<73, 82, 95, 49, 51, 52>>

OpenProduct(s, q) ==
    IF ~q.ok THEN Fails
    ELSE LET k == ProKey(q)
             pk == ProdKey(q)
         IN IF k \notin DOMAIN s.pros \/ k \notin DOMAIN s.epis \/ pk \notin DOMAIN s.prods THEN Fails
            ELSE LET p == [s.prods[pk] EXCEPT !.cov = CovOf(s.epis[k])]
                 IN IF p.present = {} \/ p.chan \notin 1..12 \/ p.cols = 0 THEN Fails
                    ELSE IF Thermal(p.chan) /\ p.bpp \notin 1..16 THEN Fails
                    ELSE XDataset(p, s.pros[k])

\* --- computed datasets -----------------------------------------------------
View(d, kind, band) == [src |-> <<d>>] @@ [d EXCEPT !.kind = kind, !.bands = <<band>>]
Derived(d, what) ==
    LET b == d.bands[1]
        base == [chan |-> b.chan, chid |-> b.chid, desc |-> "", scale |-> 1, ofs |-> 0, nodata |-> <<>>, bx |-> b.bx, by |-> b.by]
    IN CASE what = "reflectance" -> IF d.chan \in {1, 2, 3, 12}
                                    THEN View(d, "reflectance", base @@ [type |-> "Float32", unit |-> "%"])
                                    ELSE Fails
         [] what = "cos_sol_za" -> View(d, "cos_sol_za", base @@ [type |-> "Float64", unit |-> ""])
         [] what = "sat_za" -> View(d, "sat_za", base @@ [type |-> "Float64", unit |-> ""])
         [] what = "jday" -> View(d, "jday", base @@ [type |-> "Int16", unit |-> "day"])
         [] OTHER -> Fails
WithNoData(d, v) == IF Good(d) THEN [d EXCEPT !.bands[1].nodata = <<v>>] ELSE d
Compute(d, what) == IF what = "" \/ ~Good(d) THEN d
                    ELSE IF what = "reflectance" THEN WithNoData(Derived(d, what), 0) ELSE Derived(d, what)
\* the 3.9 micrometre reflectance needs two more channels of the same place and time
Compute39(a, b, c) ==
    IF ~(Good(a) /\ Good(b) /\ Good(c)) THEN Fails
    ELSE IF ~(a.gt = b.gt /\ a.gt = c.gt /\ a.srs = b.srs /\ a.srs = c.srs /\ a.dt = b.dt /\ a.dt = c.dt) THEN Fails
    ELSE LET d == [a EXCEPT !.kind = "reflectance39",
                            !.bands = <<[@[1] EXCEPT !.type = "Float32", !.unit = "%", !.desc = "", !.scale = 1, !.ofs = 0, !.nodata = <<0>>]>>]
         IN [src |-> <<a, b, c>>] @@ d

OpenXrit(s, name, what) ==
    IF ~Recognised(name) THEN Foreign
    ELSE LET q == Parse(name) IN
         IF ~q.ok THEN Fails
         ELSE LET last == IF q.p2 = <<>> THEN 0 ELSE q.p2[Len(q.p2)]
                  cutq == [q EXCEPT !.p2 = Sub(@, 1, Len(@) - 1)]
              IN CASE last = 114 /\ cutq.p2 = IR039 ->         \* "r": reflectance
                          Compute39(OpenProduct(s, cutq), OpenProduct(s, [cutq EXCEPT !.p2 = IR108]), OpenProduct(s, [cutq EXCEPT !.p2 = IR134]))
                   [] last = 114 /\ cutq.p2 # IR039 -> Compute(OpenProduct(s, cutq), "reflectance")
                   [] last = 97 -> Compute(OpenProduct(s, cutq), "cos_sol_za")     \* "a": angle
                   [] OTHER -> LET d == OpenProduct(s, q) IN Compute(d, what)

\* --- memory and files ------------------------------------------------------
MemDataset(r) ==
    (IF "gcps" \in DOMAIN r THEN [gcps |-> r.gcps] ELSE <<>>) @@ (IF "ct" \in DOMAIN r THEN [ct |-> r.ct] ELSE <<>>) @@
    [kind |-> "mem", xs |-> r.xs, ys |-> r.ys,
     gt |-> IF "gt" \in DOMAIN r THEN r.gt ELSE <<>>,
     srs |-> IF "srs" \in DOMAIN r THEN IF "lon" \in DOMAIN r.srs THEN [Geos(r.srs.lon) EXCEPT !.h = IF "h" \in DOMAIN r.srs THEN r.srs.h ELSE GeosH]
                                        ELSE [proj |-> "(other)"] ELSE NoSrs,
     dt |-> r.dt, jday |-> r.jday, hour |-> r.hour, scid |-> r.scid, sc |-> r.sc,
     drv |-> IF "file" \in DOMAIN r THEN "GTiff" ELSE "MEM",
     bands |-> [b \in 1..r.nb |-> (IF "each" \in DOMAIN r THEN r.each[b] ELSE [type |-> r.type]) @@ [type |-> r.type, chan |-> r.chan, chid |-> r.chid, desc |-> IF "desc" \in DOMAIN r THEN r.desc[b] ELSE "",
                                   unit |-> IF "unit" \in DOMAIN r THEN r.unit ELSE "",
                                   scale |-> IF "scale" \in DOMAIN r THEN r.scale ELSE 1, ofs |-> IF "ofs" \in DOMAIN r THEN r.ofs ELSE 0,
                                   nodata |-> IF "nodata" \in DOMAIN r THEN <<r.nodata>> ELSE <<>>, bx |-> 0, by |-> 0]],
     lift |-> IF "lift" \in DOMAIN r THEN r.lift ELSE 0, mul |-> IF "mul" \in DOMAIN r THEN r.mul ELSE 1,
     mod |-> r.mod, flat |-> IF "flat" \in DOMAIN r THEN r.flat ELSE -1, chan |-> r.nchan]
Pattern(b, x, y, m) == (b * 7 + x * 13 + y * 29 + ((x * y) % 5)) % m

\* --- calibrated view: counts become physical values -----------------------
Calibrated(d) ==
    [src |-> <<d>>] @@
    [d EXCEPT !.kind = "calibrated",
              !.bands = [k \in 1..Len(d.bands) |->
                 IF d.bands[k].type = "UInt16" THEN [d.bands[k] EXCEPT !.type = "Float32", !.scale = 1, !.ofs = 0, !.nodata = <<0>>] ELSE d.bands[k]]]

\* --- crops, resamplings, band selections -----------------------------------
\* a request: every part optional
Has(r, f) == f \in DOMAIN r
Trunc(v) == IF RLt(v, 0) THEN -RInt(RFloor(RNeg(v))) ELSE RInt(RFloor(v))
Window(d, r) ==
    IF Has(r, "projwin")
    THEN LET w == r.projwin IN
         <<Trunc(RAdd(RDiv(RSub(w[1], d.gt[1]), d.gt[2]), R("0.001"))), Trunc(RAdd(RDiv(RSub(w[2], d.gt[4]), d.gt[6]), R("0.001"))),
           Trunc(RAdd(RDiv(RSub(w[3], w[1]), d.gt[2]), R("0.5"))), Trunc(RAdd(RDiv(RSub(w[4], w[2]), d.gt[6]), R("0.5")))>>
    ELSE IF Has(r, "srcwin") /\ ~(r.srcwin[3] = 0 /\ r.srcwin[4] = 0) THEN r.srcwin
    ELSE <<IF Has(r, "srcwin") THEN r.srcwin[1] ELSE 0, IF Has(r, "srcwin") THEN r.srcwin[2] ELSE 0, d.xs, d.ys>>
InImage(d, w) == w[1] >= 0 /\ w[2] >= 0 /\ w[3] > 0 /\ w[4] > 0 /\ w[1] + w[3] <= d.xs /\ w[2] + w[4] <= d.ys
OutSize(r, w) == IF Has(r, "size") THEN [k \in 1..2 |-> IF r.size[k].pct THEN (r.size[k].n * w[k + 2]) \div 100 ELSE r.size[k].n] ELSE <<w[3], w[4]>>
\* one output pixel covers this much of the input
SameSize(w, o) == w[3] = o[1] /\ w[4] = o[2]
Linear(r) == LET z == r.scale IN
             LET smax == IF REq(z[2], z[1]) THEN RAdd(z[2], R("0.1")) ELSE z[2]
                 dmax == IF REq(z[4], z[3]) THEN RAdd(z[4], R("0.1")) ELSE z[4]
                 k == RDiv(RSub(dmax, z[3]), RSub(smax, z[1]))
             IN [k |-> k, c |-> RSub(z[3], RMul(z[1], k))]
Unchanged(d, r, w) == /\ ~Has(r, "ot") /\ ~Has(r, "scale") /\ ~Has(r, "mo") /\ ~Has(r, "ullr") /\ ~Has(r, "nodata") /\ ~Has(r, "size") /\ ~Has(r, "gcps") /\ ~Has(r, "osrs") /\ ~Has(r, "expand")
                      /\ w = <<0, 0, d.xs, d.ys>>
                      /\ (Has(r, "bands") => r.bands = [k \in 1..Len(d.bands) |-> k])
GcpsOf(d) == IF Has(d, "gcps") THEN d.gcps ELSE <<>>
Translated(d, r) ==
    LET w == Window(d, r)
        bands == IF Has(r, "bands") THEN r.bands ELSE [k \in 1..Len(d.bands) |-> k]
    IN IF d.bands = <<>> THEN Fails
       ELSE IF Has(r, "projwin") /\ (d.gt = <<>> \/ ~REq(d.gt[3], 0) \/ ~REq(d.gt[5], 0)) THEN Fails
       ELSE IF \E k \in 1..Len(bands) : bands[k] \notin 1..Len(d.bands) THEN Fails
       ELSE IF ~InImage(d, w) THEN Fails
       ELSE IF Unchanged(d, r, w) THEN d
       ELSE LET o == OutSize(r, w) IN
            IF o[1] <= 0 \/ o[2] <= 0 THEN Fails
            ELSE IF Has(r, "expand") /\ ~Has(d, "ct") THEN Fails
            ELSE LET fx == RDiv(w[3], o[1])
                     fy == RDiv(w[4], o[2])
                     g == d.gt
                     gt == IF Has(r, "ullr")
                           THEN LET u == r.ullr IN <<u[1], RDiv(RSub(u[3], u[1]), o[1]), 0, u[2], 0, RDiv(RSub(u[4], u[2]), o[2])>>
                           ELSE IF g = <<>> \/ Has(r, "gcps") THEN <<>>
                           ELSE <<RAdd(g[1], RAdd(RMul(w[1], g[2]), RMul(w[2], g[3]))), RMul(g[2], fx), RMul(g[3], fy),
                                  RAdd(g[4], RAdd(RMul(w[1], g[5]), RMul(w[2], g[6]))), RMul(g[5], fx), RMul(g[6], fy)>>
                     \* points of the ground stay on their pixels
                     gcps == IF Has(r, "gcps") THEN r.gcps
                             ELSE [k \in DOMAIN GcpsOf(d) |-> LET p == GcpsOf(d)[k] IN <<RDiv(RSub(p[1], w[1]), fx), RDiv(RSub(p[2], w[2]), fy), p[3], p[4], p[5]>>]
                     \* a band of indices becomes n bands of the colours of its table, before the others
                     n == IF Has(r, "expand") THEN r.expand ELSE 0
                     pick == IF n = 0 THEN bands ELSE [k \in 1..n |-> bands[1]] \o SubSeq(bands, 2, Len(bands))
                 IN [src |-> <<d>>, w |-> w, pick |-> pick, hue |-> n, gcps |-> gcps, lin |-> IF Has(r, "scale") THEN Linear(r) ELSE [k |-> 1, c |-> 0]] @@
                    [IF Has(r, "mo") THEN [mo |-> r.mo] @@ d ELSE d EXCEPT !.kind = "window", !.xs = o[1], !.ys = o[2], !.gt = gt, !.drv = "VRT",
                              !.srs = IF Has(r, "gcps") THEN NoSrs ELSE IF Has(r, "osrs") THEN Geos(r.osrs.lon) ELSE @,
                              !.bands = [k \in 1..Len(pick) |->
                                  LET s == d.bands[pick[k]]
                                      b == IF k > n THEN s ELSE [s EXCEPT !.chan = "(none)", !.chid = "(none)", !.desc = "", !.unit = "", !.scale = 1, !.ofs = 0, !.nodata = <<>>] IN
                                  [b EXCEPT !.type = IF Has(r, "ot") THEN r.ot ELSE @,
                                            !.nodata = IF Has(r, "nodata") THEN <<r.nodata>> ELSE @, !.bx = 0, !.by = 0]]]

\* a copy in a file: same pixels, georeferencing, metadata, and description of the bands
\* (block sizes are the format's)
Copied(d, drv) == [src |-> <<d>>] @@ [d EXCEPT !.kind = "copy", !.drv = drv, !.bands = [k \in 1..Len(d.bands) |-> [d.bands[k] EXCEPT !.bx = 0, !.by = 0]]]

\* --- GRIB ------------------------------------------------------------------
\* One message: the physical values of the first band, on one of the two grids
\* in use, placed to the whole pixel, with time, satellite and channel.
Templates == {"msat/wmo", "msat/ecmwf", "msat/msat"}
DefaultMissing(c) == IF c = 1 THEN R("-1.02691") ELSE IF c = 12 THEN R("-1.63196") ELSE R(0)
OnGrid(g, ps) == LET near(a, b) == RLe(RAbs(RSub(a, b)), R("0.0001")) IN near(g[2], ps) /\ near(g[6], RNeg(ps))
IntOf(t) == IF \E n \in 0..400 : ToString(n) = t THEN CHOOSE n \in 0..400 : ToString(n) = t ELSE -1
AllPx(d, b, P(_, _, _, _)) == {P(d, b, x, y) : x \in 0..d.xs - 1, y \in 0..d.ys - 1}
GribOf(d, tpl, P(_, _, _, _)) ==
    IF tpl \notin Templates \/ d.bands = <<>> THEN Fails
    ELSE IF "lon" \notin DOMAIN d.srs \/ d.gt = <<>> THEN Fails
    ELSE IF ~REq(d.srs.h, GeosH) \/ ~REq(d.gt[3], 0) \/ ~REq(d.gt[5], 0) THEN Fails
    ELSE LET hrv == OnGrid(d.gt, PixelH)
             g == d.gt
             b == d.bands[1]
             sat == IntOf(d.scid)
             ch == IntOf(b.chid)
             half == IF hrv THEN 5568 ELSE 1856
             x0 == RInt(RAdd(half, RDiv(g[1], g[2])))
             y0 == RInt(RSub(half, RDiv(g[4], RNeg(g[6]))))
             ps == SizeOfDisc(DiscOf(g[2]))
             px == AllPx(d, 1, P)
             gone(e) == b.nodata # <<>> /\ REq(e, b.nodata[1])
             phys == {RAdd(RMul(e, b.scale), b.ofs) : e \in {e \in UNION px : ~gone(e)}}
         IN IF ~hrv /\ ~OnGrid(g, PixelN) THEN Fails
            ELSE IF x0 < 0 \/ y0 < 0 \/ {} \in px \/ phys = {} THEN Fails
            ELSE IF tpl = "msat/wmo" /\ ~(Seviri(sat) /\ ch \in 1..12) THEN Fails
            ELSE LET top == RAbs(CHOOSE e \in phys : \A f \in phys : RLe(RAbs(f), RAbs(e)))
                 IN [src |-> <<d>>, tol |-> RMul(top, R("0.000001"))] @@
                    [d EXCEPT !.kind = "grib", !.drv = "MsatGRIB",
                       !.gt = <<RMul(x0 - half, ps), ps, 0, RMul(half - y0, ps), 0, RNeg(ps)>>,
                       !.dt = IF tpl = "msat/wmo" THEN @ ELSE SubSeq(@, 1, 17) \o "00",
                       !.sc = SatName(sat), !.chan = ch,
                       !.bands = <<[type |-> "Float64", chan |-> ChanName(sat, ch), chid |-> b.chid, desc |-> ChanName(sat, ch), unit |-> ChanUnit(sat, ch),
                                    scale |-> 1, ofs |-> 0, nodata |-> <<DefaultMissing(ch)>>, bx |-> d.xs, by |-> d.ys]>>]
\* a copy made by a driver
Made(d, drv, tpl, P(_, _, _, _)) == IF drv = "MsatGRIB" THEN GribOf(d, tpl, P) ELSE Copied(d, drv)

\* crop and resample at once, into a file
Recoded(d, r, drv, P(_, _, _, _)) ==
    LET w == IF Has(r, "box") THEN <<r.box[1], r.box[2], r.box[3] - r.box[1], r.box[4] - r.box[2]>> ELSE <<0, 0, d.xs, d.ys>>
        q == IF Has(r, "size") /\ ~(r.size[1] = w[3] /\ r.size[2] = w[4])
             THEN [srcwin |-> w, size |-> [k \in 1..2 |-> [pct |-> FALSE, n |-> r.size[k]]]] ELSE [srcwin |-> w]
        t == Translated(d, q)
    IN IF Good(t) THEN Made(t, drv, "msat/wmo", P) ELSE t

\* --- georeferencing ---------------------------------------------------------
Forward(g, x, y) == <<RAdd(g[1], RAdd(RMul(g[2], x), RMul(g[3], y))), RAdd(g[4], RAdd(RMul(g[5], x), RMul(g[6], y)))>>
Det(g) == RSub(RMul(g[2], g[6]), RMul(g[3], g[5]))
Invertible(g) == ~RLt(RAbs(Det(g)), R("0.000000000000001"))
InvGt(g) == LET k == RDiv(1, Det(g)) IN
    <<RMul(k, RSub(RMul(g[3], g[4]), RMul(g[1], g[6]))), RMul(k, g[6]), RNeg(RMul(k, g[3])),
      RMul(k, RSub(RMul(g[1], g[5]), RMul(g[2], g[4]))), RNeg(RMul(k, g[5])), RMul(k, g[2])>>
\* columns and lines from the corner of the image to the point below the satellite, and the pixel size
Offsets(g) == [xs |-> RDiv(RNeg(g[1]), g[2]), ys |-> RDiv(g[4], RNeg(g[6])), psx |-> g[2], psy |-> RNeg(g[6])]

\* --- pixel values ----------------------------------------------------------
\* what a pixel may be: a set of reals (one, except under resampling); {} : reading it is an error
IntType(t) == t \in {"Byte", "UInt16", "Int16", "Int32", "UInt32"}
Place(d, x, y) ==
    LET px == RAdd(d.gt[1], RAdd(RMul(d.gt[2], x), RMul(d.gt[3], y)))
        py == RAdd(d.gt[4], RAdd(RMul(d.gt[5], x), RMul(d.gt[6], y)))
    IN LatLonOf(px, py, d.srs.lon)
Limits(t) == CASE t = "Byte" -> <<0, 255>> [] t = "UInt16" -> <<0, 65535>> [] t = "Int16" -> <<-32768, 32767>> [] OTHER -> <<-2147483647, 2147483647>>
\* what a value is once stored in a type (a half may go either way)
AsStored(t, e) ==
    IF ~IntType(t) THEN {e}
    ELSE LET c == R(RMax(Limits(t)[1], RMin(Limits(t)[2], e)))
             f == RFloor(c)
             g == RSub(c, f)
         IN (IF RLt(g, R("0.50001")) THEN {R(f)} ELSE {}) \cup (IF RLt(R("0.49999"), g) THEN {RAdd(f, 1)} ELSE {})
RECURSIVE Px(_, _, _, _)
Px(d, b, x, y) ==
    CASE d.kind = "xrit" ->
            LET n == XCount(d.p, x, y) IN
            IF n = -1 THEN {}
            ELSE IF ~Thermal(d.chan) THEN {R(n)}
            ELSE IF ~InData(d.p, x, y) THEN {R(0)}
            ELSE {Kelvin(d.chan, n, d.pro.slope[d.chan], d.pro.ofs[d.chan])}
      [] d.kind = "mem" -> {RMul((IF d.flat >= 0 THEN d.flat ELSE Pattern(b, x, y, d.mod)) - d.lift, d.mul)}
      [] d.kind = "grib" ->
            LET sb == d.src[1].bands[1]
            IN {IF sb.nodata # <<>> /\ REq(e, sb.nodata[1]) THEN d.bands[1].nodata[1] ELSE RAdd(RMul(e, sb.scale), sb.ofs) : e \in Px(d.src[1], 1, x, y)}
      [] d.kind = "copy" -> UNION {AsStored(d.src[1].bands[b].type, e) : e \in Px(d.src[1], b, x, y)}
      [] d.kind = "calibrated" ->
            LET sb == d.src[1].bands[b] IN
            IF sb.type = "UInt16" THEN {RAdd(RMul(v, sb.scale), sb.ofs) : v \in Px(d.src[1], b, x, y)} ELSE Px(d.src[1], b, x, y)
      [] d.kind = "jday" -> {R(d.jday)}
      [] d.kind = "cos_sol_za" -> LET g == Place(d, x, y) IN
            {IF g.on THEN Clamp(CosSun(d.jday, d.hour, g.lat, g.lon), 0, 1) ELSE R(0)}
      [] d.kind = "sat_za" -> LET g == Place(d, x, y) IN
            {IF g.on THEN Clamp(SatZenith(g.lat, g.lon), 0, 1) ELSE R(0)}
      [] d.kind = "reflectance" ->
            LET g == Place(d, x, y)
                sb == d.src[1].bands[1]
            IN {IF g.on THEN Reflectance(d.chan, RAdd(RMul(v, sb.scale), sb.ofs), d.jday, d.hour, g.lat, g.lon) ELSE R(0) : v \in Px(d.src[1], 1, x, y)}
      [] d.kind = "reflectance39" ->
            LET g == Place(d, x, y) IN
            {IF g.on THEN Reflectance39(t[1], t[2], t[3], d.jday, d.hour, g.lat, g.lon) ELSE R(0) :
               t \in Px(d.src[1], 1, x, y) \X Px(d.src[2], 1, x, y) \X Px(d.src[3], 1, x, y)}
      [] d.kind = "window" ->
            LET w == d.w
                \* the input pixels under an output pixel
                Under(k, n, size) == {j \in ((k * n) \div size) .. (((k + 1) * n - 1) \div size) : TRUE}
                X == Under(x, w[3], d.xs)
                Y == Under(y, w[4], d.ys)
                vs == UNION {UNION {AsStored(d.src[1].bands[d.pick[b]].type, e) : e \in Px(d.src[1], d.pick[b], w[1] + i, w[2] + j)} : i \in X, j \in Y}
            IN IF b <= d.hue THEN {R(d.src[1].ct[RInt(v) + 1][b]) : v \in vs}
               ELSE {RAdd(RMul(v, d.lin.k), d.lin.c) : v \in vs}

\* does an observed number stand for an exact value in a band of a type?
RECURSIVE Base(_)
Base(d) == IF d.kind \in {"window", "copy", "calibrated"} THEN Base(d.src[1]) ELSE d.kind
\* what packing numbers in a message may move them
RECURSIVE Packing(_)
Packing(d) == IF d.kind = "grib" THEN d.tol
              ELSE IF d.kind \in {"copy", "calibrated"} THEN Packing(d.src[1])
              ELSE IF d.kind = "window" THEN RMul(Packing(d.src[1]), RAbs(d.lin.k)) ELSE R(0)
Stands(t, kind, v, e) ==
    CASE IntType(t) -> LET c == RMax(Limits(t)[1], RMin(Limits(t)[2], e)) IN RClose(v, c, 0, R("0.5000001"))
      [] kind \in {"cos_sol_za", "sat_za"} -> RClose(v, e, 0, R("0.000005"))
      [] kind = "reflectance" -> RClose(v, e, R("0.00001"), R("0.0001"))
      [] kind = "reflectance39" -> RClose(v, e, R("0.0001"), R("0.002"))
      [] t = "Float32" -> RClose(v, e, R("0.000003"), R("0.00002"))
      [] OTHER -> RClose(v, e, R("0.000001"), R("0.000001"))
=============================================================================
