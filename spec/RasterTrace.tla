----------------------------- MODULE RasterTrace -----------------------------
(* Recorded uses of the GDAL side, against Raster. *)
EXTENDS MsatTool, TraceBase

Empty == [x \in {} |-> 0]
MyStarts(r) == {[pros |-> Empty, epis |-> Empty, prods |-> Empty, ds |-> Empty, files |-> Empty, grs |-> Empty]}

Close(a, b) == RClose(a, b, R("0.0000001"), R("0.000001"))
SameSrs(o, m) == /\ o.proj = m.proj
                 /\ ("lon" \in DOMAIN m) =>
                      Close(o.lon, m.lon) /\ REq(o.h, m.h) /\ REq(o.fe, m.fe) /\ REq(o.fn, m.fn) /\ Close(o.a, m.a) /\ Close(o.rf, m.rf)
SameGt(o, m) == Len(o) = Len(m) /\ \A k \in 1..Len(m) : RClose(o[k], m[k], R("0.000001"), R("0.00001"))
SameBand(o, m) ==
    /\ o.type = m.type
    /\ o.chan = m.chan /\ o.chid = m.chid
    /\ o.desc = m.desc /\ o.unit = m.unit
    /\ RClose(o.scale, m.scale, R("0.000000001"), 0) /\ RClose(o.ofs, m.ofs, R("0.000000001"), 0)
    /\ (IF m.nodata = <<>> THEN ~o.hasnodata ELSE o.hasnodata /\ Close(o.nodata, m.nodata[1]))
    /\ (m.bx # 0 => o.bx = m.bx /\ o.by = m.by)
InfoOK(o, d) ==
    /\ o.xs = d.xs /\ o.ys = d.ys /\ o.nb = Len(d.bands)
    /\ SameGt(o.gt, d.gt) /\ SameSrs(o.srs, d.srs)
    /\ o.datetime = d.dt /\ o.scid = d.scid /\ o.sc = d.sc
    /\ (d.drv # "any" => o.drv = d.drv)
    /\ \A k \in 1..Len(d.bands) : SameBand(o.bands[k], d.bands[k])
    /\ (d.kind \in {"mem", "window", "calibrated"} /\ "gcps" \in DOMAIN d =>
           Len(o.gcps) = Len(d.gcps) /\ \A k \in DOMAIN d.gcps : \A j \in 1..5 : Close(o.gcps[k][j], d.gcps[k][j]))
    /\ ("mo" \in DOMAIN d) => \A k \in 1..Len(d.mo) : \E n \in 1..Len(o.md) : o.md[n] = d.mo[k]

Floor(a, b) == a \div b
\* a window read at another size: the output pixel is one of the pixels under it
ReadOK(d, r) ==
    LET inside == r.x >= 0 /\ r.y >= 0 /\ r.w > 0 /\ r.h > 0 /\ r.x + r.w <= d.xs /\ r.y + r.h <= d.ys
        ow == IF "ow" \in DOMAIN r THEN r.ow ELSE r.w
        oh == IF "oh" \in DOMAIN r THEN r.oh ELSE r.h
        b == IF "band" \in DOMAIN r THEN r.band ELSE 1
        Under(k, n, size) == ((k * n) \div size) .. (((k + 1) * n - 1) \div size)
        May(m, n) == UNION {Px(d, b, r.x + p, r.y + q) : p \in Under(m, r.w, ow), q \in Under(n, r.h, oh)}
        \* no pixel of a line that cannot be read
        rows == {y \in r.y..r.y + r.h - 1 : Px(d, b, r.x, y) = {}}
    IN IF ~inside THEN ~r.out.ok
       ELSE IF r.out.ok
       THEN /\ ~r.out.err
            /\ (ow = r.w /\ oh = r.h => rows = {})
            /\ Len(r.out.v) = ow * oh
            /\ \A n \in 0..oh - 1, m \in 0..ow - 1 :
                  LET v == r.out.v[n * ow + m + 1] IN \E e \in May(m, n) : Stands(d.bands[b].type, Base(d), v, e) \/ RClose(v, e, 0, Packing(d))
       ELSE r.out.err /\ rows # {}

Opened(s, r, d) ==
    IF Good(d) THEN IF r.out.ok /\ ~r.out.err /\ r.out.nb = Len(d.bands) THEN {[s EXCEPT !.ds = (r.ds :> d) @@ @]} ELSE {}
    ELSE IF ~r.out.ok /\ (d = Fails => r.out.err) /\ (d = Foreign => ~r.out.err) THEN {s} ELSE {}

\* one request over several datasets, one after the other
RECURSIVE Xlate(_, _, _)
Xlate(s, r, k) ==
    IF k > Len(r.pairs) THEN {s}
    ELSE LET p == r.pairs[k]
             o == r.out.res[k]
             d == s.ds[p.src]
             t == Translated(d, r)
         IN IF ~Good(t) THEN IF ~o.ok /\ o.err THEN Xlate(s, r, k + 1) ELSE {}
            ELSE IF o.ok /\ ~o.err /\ (o.same <=> Unchanged(d, r, Window(d, r)))
                 THEN Xlate(IF o.same THEN s ELSE [s EXCEPT !.ds = (p.ds :> t) @@ @], r, k + 1) ELSE {}

\* a file came to be (or did not), and the dataset that is it
InFile(s, r, d) ==
    IF Good(d) THEN IF r.out.ok /\ ~r.out.err /\ r.out.nb = Len(d.bands)
                    THEN {[s EXCEPT !.ds = (r.ds :> d) @@ @, !.files = (r.file :> d) @@ @]} ELSE {}
    ELSE IF ~r.out.ok /\ r.out.err THEN {s} ELSE {}

\* georeferencing of one pixel: projected, to latitude and longitude, and back
Scaled(p, k) == <<RMul(p[1], k), RMul(p[2], k)>>
SameLon(a, b, t) == RClose(a, b, 0, t) \/ RClose(RAdd(a, 360), b, 0, t) \/ RClose(a, RAdd(b, 360), 0, t)
GeoOK(d, r) ==
    LET o == r.out
        p == Forward(d.gt, r.x, r.y)
        size == RMax(RAbs(d.gt[1]), RMax(RAbs(d.gt[4]), RMax(RAbs(p[1]), RAbs(p[2]))))
    IN /\ RClose(o.px, p[1], 0, RAdd(RMul(size, R("0.000000000001")), R("0.0000001")))
       /\ RClose(o.py, p[2], 0, RAdd(RMul(size, R("0.000000000001")), R("0.0000001")))
       /\ o.bx = r.x /\ o.by = r.y
       /\ IF "lon" \notin DOMAIN d.srs
          THEN o.ok /\ RClose(o.lat, p[2], 0, R("0.000001")) /\ SameLon(o.lon, p[1], R("0.000001")) /\ o.ok2 /\ o.cx = r.x /\ o.cy = r.y
          ELSE LET g == LatLonOf(p[1], p[2], d.srs.lon)
                   in == Scaled(p, R("0.99998"))
                   out == Scaled(p, R("1.00002"))
                   gi == LatLonOf(in[1], in[2], d.srs.lon)
                   go == LatLonOf(out[1], out[2], d.srs.lon)
               IN IF ~gi.on THEN ~o.ok
                  ELSE IF ~go.on THEN TRUE         \* the rim itself
                  ELSE /\ o.ok
                       /\ RClose(o.lat, g.lat, 0, R("0.00002")) /\ SameLon(o.lon, g.lon, R("0.00002"))
                       /\ o.ok2 /\ o.cx = r.x /\ o.cy = r.y

\* --- the msat command
NoItem(o, k, v) == \A n \in 1..Len(o) : Len(o[n]) > Len(k) => SubSeq(o[n], 1, Len(k) + 1) # k \o "="
ItemOK(o, k, v) == IF v = Absent THEN NoItem(o, k, v) ELSE \E n \in 1..Len(o) : o[n] = k \o "=" \o v
Six(v, e) == RClose(v, e, R("0.00001"), R("0.000001"))    \* six digits are shown
ViewOK(o, d, full) ==
    /\ o.xs = d.xs /\ o.ys = d.ys /\ Len(o.bands) = Len(d.bands)
    /\ (d.gt # <<>> => Len(o.gt) = 6 /\ \A k \in 1..6 : Six(o.gt[k], d.gt[k]))
    /\ ItemOK(o.md, "MSAT_DATETIME", d.dt) /\ ItemOK(o.md, "MSAT_SPACECRAFTID", d.scid) /\ ItemOK(o.md, "MSAT_SPACECRAFT", d.sc)
    /\ \A k \in 1..Len(d.bands) :
          LET b == d.bands[k]
              p == o.bands[k]
          IN /\ p.nth = ToString(k) \o "/" \o ToString(Len(d.bands)) /\ p.name = b.desc
             /\ p.xs = d.xs /\ p.ys = d.ys /\ p.type = "GDT_" \o b.type /\ p.unit = b.unit
             /\ Six(p.ofs, b.ofs) /\ Six(p.scale, b.scale)
             /\ ItemOK(p.md, "MSAT_CHANNEL", b.chan) /\ ItemOK(p.md, "MSAT_CHANNELID", b.chid)
             \* what is said of the pixels is of these pixels, asked or remembered
             /\ ((full \/ p.range # <<>>) /\ Few(d)) =>
                  LET vs == Values(d, k)
                      one == \A q \in DOMAIN vs : \E e \in vs[q] : \A f \in vs[q] : REq(e, f)
                      good == {q \in DOMAIN vs : \E e \in vs[q] : ~Missing(d, k, e)}
                      seen == {CHOOSE e \in vs[q] : TRUE : q \in good}
                  IN (one /\ good # {} /\ DOMAIN vs = {q \in DOMAIN vs : vs[q] # {}}) =>
                       Len(p.range) = 4 /\ RClose(p.range[1], Least(seen), R("0.00002"), R("0.0001")) /\ RClose(p.range[2], Most(seen), R("0.00002"), R("0.0001"))
ContentOK(o, c, r) ==
    IF c.what = "img" THEN GrayOK(o, c.d, c.b, r)
    ELSE /\ o.what = "ds" /\ InfoOK(o.info, c.d)
         /\ Few(c.d) => \A b \in 1..Len(c.d.bands) :
              /\ Len(o.px[b]) = c.d.xs * c.d.ys
              /\ \A p \in Pixels(c.d) : LET v == o.px[b][p[2] * c.d.xs + p[1] + 1] IN
                    \E e \in Px(c.d, b, p[1], p[2]) : Stands(c.d.bands[b].type, Base(c.d), v, e) \/ RClose(v, e, 0, Packing(c.d))
ToolOK(o, m, r) ==
    LET names == {o.outs[n].name : n \in 1..Len(o.outs)}
        as == /\ o.status = m.code /\ (m.code = 1 => o.said)
              /\ DOMAIN m.outs \subseteq names /\ names \subseteq (DOMAIN m.outs) \cup m.tried
              /\ \A n \in 1..Len(o.outs) : o.outs[n].name \in DOMAIN m.outs => ContentOK(o.outs[n], m.outs[o.outs[n].name], r)
              /\ Len(o.views) = Len(m.views) /\ \A n \in 1..Len(m.views) : ViewOK(o.views[n], m.views[n], r.action = "viewmore")
        \* no room for what should be written: it may fail, and says so
        short == o.status = 1 /\ o.said /\ names \subseteq (DOMAIN m.outs) \cup m.tried
    IN \* nothing else changes; statistics may be kept beside the input
       /\ (r.action # "viewmore" => o.touched = <<>>)
       /\ CASE "full" \in DOMAIN r /\ m.views # <<>> -> o.status = 1 /\ o.said
            [] "limit" \in DOMAIN r -> as \/ short
            [] OTHER -> as

Shown(s, r) == s.ds[IF r.ds \notin DOMAIN s.ds /\ "maybe" \in DOMAIN r THEN r.maybe ELSE r.ds]

What(r) == IF "compute" \in DOMAIN r THEN r.compute ELSE ""

MyStep(s, r) ==
    CASE r.op = "product" ->
            {[s EXCEPT !.pros = IF r.nopro THEN @ ELSE (ProKey(r.key) :> ProOf(r)) @@ @,
                       !.epis = IF r.noepi THEN @ ELSE (ProKey(r.key) :> r.cov) @@ @,
                       !.prods = IF r.segs = <<>> THEN @ ELSE (ProdKey(r.key) :> ProductOf(r)) @@ @]}
      [] r.op = "open" -> LET d == IF "gfile" \in DOMAIN r THEN IF r.gfile \in DOMAIN s.files
                                                               THEN LET f == s.files[r.gfile] IN IF Good(f) /\ f.drv = "MsatGRIB" THEN Compute(f, What(r)) ELSE f
                                                               ELSE Fails
                                   ELSE OpenXrit(s, r.name, What(r))
                          IN Opened(s, r, IF d = Foreign THEN Fails ELSE d)
      [] r.op = "identify" -> LET d == OpenXrit(s, r.name, What(r))
                              IN Opened(s, r, IF Good(d) THEN [d EXCEPT !.drv = "(none)"] ELSE d)
      [] r.op = "rm" /\ r.what = "pro" -> {[s EXCEPT !.pros = [k \in (DOMAIN @) \ {ProKey(r.key)} |-> @[k]]]}
      [] r.op = "rm" /\ r.what = "epi" -> {[s EXCEPT !.epis = [k \in (DOMAIN @) \ {ProKey(r.key)} |-> @[k]]]}
      [] r.op = "rm" /\ r.what = "seg" ->
            {LET k == ProdKey(r.key)
                 left == s.prods[k].present \ {r.seq}
             IN [s EXCEPT !.prods = IF left = {} THEN [q \in (DOMAIN @) \ {k} |-> @[q]] ELSE [@ EXCEPT ![k].present = left]]}
      [] r.op = "mem" -> IF r.out.ok THEN {[s EXCEPT !.ds = (r.ds :> MemDataset(r)) @@ @, !.files = IF "file" \in DOMAIN r THEN (r.file :> MemDataset(r)) @@ @ ELSE @]} ELSE {}
      [] r.op = "info" -> IF InfoOK(r.out, Shown(s, r)) THEN {s} ELSE {}
      [] r.op = "read" -> LET d == Shown(s, r)
                              q == IF "all" \in DOMAIN r THEN [x |-> 0, y |-> 0, w |-> d.xs, h |-> d.ys] @@ r ELSE r
                          IN IF ReadOK(d, q) THEN {s} ELSE {}
      [] r.op = "xlate" -> IF Len(r.out.res) = Len(r.pairs) THEN Xlate(s, r, 1) ELSE {}
      [] r.op = "recode" -> InFile(s, r, Recoded(s.ds[r.src], r, r.drv, Px))
      [] r.op = "copy" -> InFile(s, r, Made(s.ds[r.src], r.drv, IF "tpl" \in DOMAIN r THEN r.tpl ELSE "msat/wmo", Px))
      \* what happens to files behind our back: cut short, something written before, another message after; messages of other kinds
      [] r.op = "mutate" ->
            {IF r.what = "append" \/ (r.what = "prefix" /\ r.n < 1000) THEN s
             ELSE [s EXCEPT !.files = (r.file :> Fails) @@ @]}
      [] r.op = "sample" -> {[s EXCEPT !.files = (r.file :> Fails) @@ @]}
      [] r.op = "georef" -> LET d == s.ds[r.src]
                                good == d.gt # <<>> /\ Invertible(d.gt) /\ d.srs.proj # "(none)"
                            IN IF r.out.ok = good /\ (~good => r.out.err) THEN {[s EXCEPT !.grs = (r.gr :> d) @@ @]} ELSE {}
      [] r.op = "geo" -> IF GeoOK(s.grs[r.gr], r) THEN {s} ELSE {}
      [] r.op = "decodegt" -> LET f == Offsets(s.ds[r.ds].gt) IN
                              IF RClose(r.out.xs, f.xs, 0, R("0.50001")) /\ RClose(r.out.ys, f.ys, 0, R("0.50001")) /\ Close(r.out.psx, f.psx) /\ Close(r.out.psy, f.psy) THEN {s} ELSE {}
      [] r.op = "invgt" -> IF ~Invertible(r.gt) THEN IF ~r.out.ok /\ r.out.err THEN {s} ELSE {}
                           ELSE IF r.out.ok /\ \A k \in 1..6 : RClose(r.out.inv[k], InvGt(r.gt)[k], R("0.000000001"), R("0.000000001")) THEN {s} ELSE {}
      [] r.op = "stats" -> {[s EXCEPT !.ds[r.ds] = [ends |-> <<r.lo, r.hi>>] @@ @]}
      \* the least and greatest value a band announces, if it does, are those of its values
      [] r.op = "ends" ->
           LET d == s.ds[r.ds]
               o == IF d.kind = "calibrated" THEN d.src[1] ELSE d IN
           IF "ends" \notin DOMAIN o THEN (IF r.out.lo = <<>> /\ r.out.hi = <<>> THEN {s} ELSE {})
           ELSE LET e == [k \in 1..2 |-> IF d.kind = "calibrated" /\ o.bands[1].type = "UInt16" THEN RAdd(RMul(o.ends[k], o.bands[1].scale), o.bands[1].ofs) ELSE o.ends[k]]
                IN IF /\ Len(r.out.lo) = 1 /\ Len(r.out.hi) = 1
                      /\ Close(r.out.lo[1], IF RLt(e[2], e[1]) THEN e[2] ELSE e[1]) /\ Close(r.out.hi[1], IF RLt(e[2], e[1]) THEN e[1] ELSE e[2]) THEN {s} ELSE {}
      [] r.op = "calib" -> IF r.out.ok THEN {[s EXCEPT !.ds = (r.ds :> Calibrated(s.ds[r.src])) @@ @]} ELSE {}
      [] r.op = "alias" -> {IF r.ds \in DOMAIN s.ds THEN s ELSE [s EXCEPT !.ds = (r.ds :> s.ds[r.src]) @@ @]}
      \* a command that cannot be read does nothing
      [] r.op = "msat" /\ "bad" \in DOMAIN r -> IF r.out.status = 1 /\ r.out.said /\ r.out.touched = <<>> /\ r.out.outs = <<>> /\ r.out.views = <<>> THEN {s} ELSE {}
      [] r.op = "msat" -> IF \E m \in Runs(s, r) : ToolOK(r.out, m, r) THEN {s} ELSE {}
      [] r.op \in {"close", "flush"} -> {s}
      [] OTHER -> {}
=============================================================================
