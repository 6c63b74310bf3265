"""Generation of products, datasets and reads for the checks of the GDAL side."""
from vp import codes

CHANNELS = ["", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"]
SATS = [321, 322, 323, 324]
SEGL = 464


def full(chan):
    return 11136 if chan == 12 else 3712


def product(chan, segs=None, cols=5, segl=464, bpp=10, cfac=-13642337, p1="MSG1", dirn="p", res="H", time="200611141200",
            day=17849, ms=43200000, slope="0.02", ofs="-1", lon=0, sc=321, cov=None, cuts=(), names=None, p2=None,
            step="3.0004031", stephrv="1.0001343", nopro=False, noepi=False, big=0, lstep=None, lstephrv=None):
    p2 = p2 or CHANNELS[chan]
    n = -(-full(chan) // segl)
    if segs is None:
        segs = list(range(1, n + 1))
    g = []
    for k, q in enumerate(segs):
        e = {"seq": q, "file": names[k] if names else q}
        if q in cuts:
            e["cut"] = 2 * cols
        g.append(e)
    return {"op": "product", "hrv": chan == 12, "chan": chan, "p2": p2, "p1": p1, "dir": dirn, "res": res, "time": time,
            "sat": "MSG1__", "cols": cols, "segl": segl, "end": n, "cfac": cfac, "lfac": -13642337, "bpp": bpp, "sc": sc,
            "proj": "GEOS<%+06.1f>" % lon, "lon": str(lon), "day": day, "ms": ms, "step": step, "stephrv": stephrv, "lstep": lstep or step, "lstephrv": lstephrv or stephrv,
            "slope": slope, "ofs": ofs, "cov": cov or [1, 8000, 100, 5568 + 99, 8001, 11136, 2000, 2000 + 5567],
            "segs": g, "nopro": nopro, "noepi": noepi, "big": big,
            "key": {"dir": codes(dirn), "res": codes(res), "p1": codes(p1), "p2": codes(p2), "time": codes(time)}}


def short(p, p2=None):
    return codes("%s/%s:%s:%s:%s" % (p["dir"], p["res"], p["p1"], p2 or p["p2"], p["time"]))


def segname(p, n=1, p2=None):
    return codes("%s/%s-000-%s-%s-%s-%s-%s-C_" % (p["dir"], p["res"], p["sat"], pad(p["p1"], 12), pad(p2 or p["p2"], 9),
                                                   pad("%06d" % n, 9), p["time"]))


def open_(ds, p, suffix="", compute=None, form="short", op="open", p2=None):
    ch = (p2 or p["p2"]) + suffix
    o = {"op": op, "ds": ds, "name": short(p, ch) if form == "short" else segname(p, 1, ch)}
    if op == "identify":
        o["drv"] = "MsatXRIT"
    if compute:
        o["opts"] = ["MSAT_COMPUTE=" + compute]
        o["compute"] = compute
    return o


def random_cov(rng):
    ln = rng.choice([8064, rng.randint(1, 11136), 11136])
    ls = rng.choice([1, rng.randint(1, ln)])
    us, un = ln + rng.choice([1, 1, rng.randint(1, 3000)]), rng.choice([11136, 11136, rng.randint(1, 11136)])
    if us > un or rng.random() < .2:
        us = un = 0
    lw, uw = rng.randint(5568, 11136), rng.randint(5568, 11136)
    return [ls, ln, max(1, lw - 5567), lw, us, un, max(1, uw - 5567), uw]


def random_product(rng, chan=None, **kw):
    chan = chan or rng.choice([12, 12] + list(range(1, 12)))
    segl = rng.choice([464, 464, 464, 232, 500])
    n = -(-full(chan) // segl)
    keep = rng.choice([1, 1, .9, .5])
    segs = [s for s in range(1, n + 1) if rng.random() < keep] or [rng.randint(1, n)]
    names = list(segs)
    if rng.random() < .3:
        rng.shuffle(names)
    a = dict(chan=chan, segs=segs, names=names, segl=segl, cols=rng.choice([1, 3, 5, 9, 40]), bpp=rng.choice([10, 10, 10, 8, 12]),
             cfac=rng.choice([-13642337, -13642337, 13642337]), cov=random_cov(rng) if chan == 12 else None,
             slope=rng.choice(["0.02", "0.0205034602", "0.005659", "0.203", "1.5"]), ofs=rng.choice(["-1", "-1.0456", "-0.288", "-10.4"]))
    a.update(kw)
    if "segs" in kw and "names" not in kw:
        a["names"] = None
    return product(**a)


def start_of(p, n):
    """where the generator aims its reads (the specification has its own StartOf)"""
    if p["chan"] != 12:
        return 0
    c = p["cov"]
    top = max(c[1], c[5])
    line = top - n
    if n >= top:
        return 0
    if c[0] <= line <= c[1]:
        return 11136 - c[3]
    if c[4] <= line <= c[5]:
        return 11136 - c[7]
    return 0


def interesting_line(rng, p):
    top = full(p["chan"])
    c = p["cov"]
    base = [0, top - 1, rng.randrange(top), rng.randrange(top), rng.randrange(0, top, p["segl"])]
    if p["chan"] == 12:
        t = max(c[1], c[5])
        base += [t - c[0], t - c[1], t - c[4], t - c[5], t - c[1] - 1, t - c[5] + 1, t]
    return min(top - 1, max(0, rng.choice(base) + rng.choice([0, 0, 0, 1, -1])))


def read(ds, x, y, w, h, ow=None, oh=None, band=None):
    o = {"op": "read", "ds": ds, "x": x, "y": y, "w": w, "h": h}
    if ow is not None:
        o["ow"], o["oh"] = ow, oh
    if band is not None:
        o["band"] = band
    return o


def random_read(rng, ds, p, maxn=12, resize=True):
    top = full(p["chan"])
    y = interesting_line(rng, p)
    st = start_of(p, y)
    w = rng.randint(1, 6)
    h = rng.randint(1, max(1, maxn // w))
    x = rng.choice([st, st, st - 1, st + p["cols"] - 1, st + p["cols"], 0, top - w, rng.randrange(top - w)])
    x = min(max(0, x), top - w)
    y = min(y, top - h)
    if rng.random() < .03:
        x = rng.choice([-1, top - w + 1, x])
    if rng.random() < .02:
        y = rng.choice([-1, top])
    if resize and rng.random() < .12:
        return read(ds, max(0, x), min(max(0, y), top - h), w, h, rng.randint(1, 5), rng.randint(1, 3))
    return read(ds, x, y, w, h)


def pad(s, k):
    return (s + "_" * k)[:k]


def proname(p, what="PRO"):
    return "%s/%s-000-%s-%s-_________-%s-%s-__" % (p["dir"], p["res"], pad(p["sat"], 6), pad(p["p1"], 12), pad(what, 9), p["time"])


def rm(p, what, n=1):
    o = {"op": "rm", "what": what, "key": p["key"]}
    if what == "seg":
        s = [g for g in p["segs"] if g["seq"] == n][0]
        o["seq"] = n
        o["file"] = "".join(map(chr, segname(p, s["file"])))
    else:
        o["file"] = proname(p, what.upper())
    return o


def mem(ds, **kw):
    """a dataset in memory (or in a TIFF file)"""
    o = {"op": "mem", "ds": ds, "xs": 4, "ys": 3, "nb": 1, "mod": 251, "type": "UInt16",
         "dt": "(none)", "jday": 0, "hour": 0, "scid": "(none)", "sc": "(none)", "chan": "(none)", "chid": "(none)", "nchan": 0}
    o.update(kw)
    return o


def each(rng, nb, types=("UInt16", "UInt16", "Byte", "Float32", "Int16"), file=False):
    """bands that differ from each other"""
    r = []
    for b in range(nb):
        e = {"scale": rng.choice(["0.5", "0.0205034602", 3, 1]), "ofs": rng.choice(["-1.0456", 5, 0, "-51.25"])}
        if not file:
            e["type"] = rng.choice(types)
            e["unit"] = rng.choice(["K", "", "%"])
            if rng.random() < .5:
                e["nodata"] = [rng.choice([0, 7, 255])]
        if rng.random() < .5:
            e["desc"] = "band %d" % b
        if rng.random() < .5:
            k = rng.randint(1, 12)
            e["chan"], e["chid"] = CHANNELS[k], str(k)
        r.append(e)
    return r


def wild(rng, a):
    """values below zero and between integers, where the type has them"""
    if a.get("type") in ("Int16", "Int32", "Float32", "Float64") and "each" not in a and rng.random() < .4:
        a["lift"] = rng.choice([100, 1, 40, 1000] + ([] if a["type"] == "Int16" else [70000]))
        if a["type"].startswith("Float") and rng.random() < .6:
            a["mul"] = rng.choice(["0.25", "-0.5", "0.0078125", 16])
        if "nodata" in a and rng.random() < .5:
            a["nodata"] = repr((a["nodata"] - a["lift"]) * float(a.get("mul", 1)))
    return a


def mem_seen(ds, when=None, chan=None, sat=None, **kw):
    """the same, with the metadata of an observation"""
    names = {55: "MSG1", 56: "MSG2", 57: "MSG3", 70: "MSG4"}
    md, bmd, extra = [], [], {}
    if when:
        y, m, d, h, mi = when
        extra["dt"] = "%04d-%02d-%02d %02d:%02d:00" % when
        import datetime
        extra["jday"] = datetime.date(y, m, d).timetuple().tm_yday
        extra["hour"] = repr(h + mi / 60.0) if mi else h
        md.append(["MSAT_DATETIME", extra["dt"]])
    if sat:
        extra["scid"], extra["sc"] = str(sat), names[sat]
        md += [["MSAT_SPACECRAFTID", str(sat)], ["MSAT_SPACECRAFT", names[sat]]]
    if chan:
        extra["chan"], extra["chid"], extra["nchan"] = CHANNELS[chan], str(chan), chan
        bmd += [["MSAT_CHANNEL", CHANNELS[chan]], ["MSAT_CHANNELID", str(chan)]]
    extra["md"], extra["bmd"] = md, bmd
    extra.update(kw)
    return mem(ds, **extra)


def xlate(req, *pairs):
    """a translation request, as the specification writes it, for the driver"""
    o = {"op": "xlate", "pairs": [{"src": a, "ds": b} for a, b in pairs]}
    o.update(req)
    if "size" in req:
        o["outsize"] = ["%d%s" % (z["n"], "%" if z["pct"] else "") for z in req["size"]]
    return o


def random_request(rng, xs, ys, nb, gt=None, scale=True):
    r = {}
    k = rng.random()
    w, h = rng.randint(1, xs), rng.randint(1, ys)
    x, y = rng.randint(0, xs - w), rng.randint(0, ys - h)
    if k < .45:
        r["srcwin"] = [x, y, w, h]
        if rng.random() < .12:
            r["srcwin"][rng.randrange(4)] += rng.choice([-1, 1, xs])
    elif k < .6 and gt:
        f = lambda v: repr(float(v))
        r["projwin"] = [f(gt[0] + gt[1] * x), f(gt[3] + gt[5] * y), f(gt[0] + gt[1] * (x + w)), f(gt[3] + gt[5] * (y + h))]
        if all(float(v) == 0 for v in r["projwin"]):
            del r["projwin"]
            w, h = xs, ys
    else:
        w, h = xs, ys
    if rng.random() < .4:
        if rng.random() < .5:
            r["size"] = [{"pct": False, "n": rng.choice([1, w, max(1, w // 2), w * 2, w + 1])}, {"pct": False, "n": rng.choice([1, h, max(1, h // 2), h * 2])}]
        else:
            r["size"] = [{"pct": True, "n": rng.choice([100, 50, 200, 25, 1])}, {"pct": True, "n": rng.choice([100, 50, 200, 25])}]
    if rng.random() < .25:
        r["bands"] = [rng.randint(1, nb) for _ in range(rng.randint(1, 3))]
        if rng.random() < .1:
            r["bands"].append(rng.choice([0, nb + 1]))
    if scale and rng.random() < .2:
        r["scale"] = rng.choice([[0, 250, 0, 100], [0, 100, 50, "150.5"], [10, 10, 0, 255], [0, 255, 10, 10]])
    if rng.random() < .15:
        r["nodata"] = rng.choice([0, 7, 255])
    if rng.random() < .12:
        r["ullr"] = [0, 100, "50.5", -20]
    if rng.random() < .2:
        r["ot"] = rng.choice(["Float32", "Float64", "UInt16", "Byte", "Int16", "Int32"])
    if rng.random() < .2:
        r["mo"] = ["HELLO=%d" % rng.randrange(100), "WORLD=x"][:rng.randint(1, 2)]
    return r
