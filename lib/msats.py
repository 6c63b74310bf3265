"""Command lines of msat, the files they name and what they ask."""
import gribs
from rasters import *

# what is asked; L02 asks for images
ACTIONS = ["view", "view", "viewmore", "viewmore", "conv", "conv", "conv", "conv", "conv", "conv", "png", "jpg"]


def q(v):
    return repr(float(v))


def tif(rng, ds, small=True, **kw):
    """a TIFF file, seen by a satellite or not"""
    a = dict(xs=rng.choice([1, 2, 5, 9, 16]), ys=rng.choice([1, 2, 3, 7, 12]), nb=rng.choice([1, 1, 2, 3]), file="in%d.tif" % ds,
             type=rng.choice(["UInt16", "UInt16", "Byte", "Int16", "Float32", "Float64", "Int32"]))
    a["mod"] = rng.choice([251, 97, 2, 3]) if a["type"] == "Byte" else rng.choice([251, 1021, 4093, 32749])
    r = rng.random()
    if r < .3:
        a["gt"], a["srs"] = [rng.choice([-10, 5, "20.25"]), rng.choice([1, "0.5", "0.1"]), 0, rng.choice([60, "45.5", 10]), 0, rng.choice([-1, "-0.25"])], {}
    elif r < .75:
        a["gt"], a["srs"] = gribs.grid(rng.random() < .3, rng.randint(-1200, 1000), rng.randint(-1200, 1000)), {"lon": rng.choice(["0", "0", "9.5"])}
    elif r < .85:
        a["gt"] = [0, 1, 0, 0, 0, -1]
    if rng.random() < .6:
        a["scale"], a["ofs"] = rng.choice(["0.0205034602", "0.5", "-0.25", 3]), rng.choice(["-1.0456", "-51.25", 0, 7])
    if rng.random() < .5:
        a["nodata"] = rng.choice([7, 0, 20, 36])
    if rng.random() < .15:
        a["flat"] = rng.choice([7, 36, 11, 255, 0] + ([] if a["type"] == "Byte" else [300, 1021]))
    if rng.random() < .5:
        a["desc"] = rng.sample(["HRV", "hrv", "HRVIS", "band two", "3", "IR_108", "IR_10", "!x"], a["nb"])
        rng.shuffle(a["desc"])
    if not small:
        a.update(xs=rng.choice([1500, 1281, 1280, 20, 2600]), ys=rng.choice([1290, 10, 1, 1280, 3000]), flat=9, nb=1)
    a.update(kw)
    if a["type"] == "Byte":
        a["mod"] = min(a["mod"], 251)
        if a.get("flat", 0) > 255:
            a["flat"] = 255
    wild(rng, a)
    if rng.random() < .75:
        sat, chan = rng.choice([55, 56, 57, 70]), rng.randint(1, 12)
        return mem_seen(ds, when=(rng.choice([2006, 1999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)),
                        chan=rng.choice([chan, chan, None]), sat=rng.choice([sat, sat, None]), **a)
    return mem(ds, **a)


def ground(p, x, y):
    """latitude and longitude of a pixel (to aim areas: the specification computes its own)"""
    import math
    gt = [float(v) for v in p["gt"]]
    px, py = gt[0] + gt[1] * x, gt[3] + gt[5] * y
    if "lon" not in p["srs"]:
        return py, px
    a, rf, h = 6378169.0, 295.488065897, 35785831.0
    es = 2 / rf - 1 / rf ** 2
    one, g1 = 1 - es, h / a
    g = 1 + g1
    vy = math.tan(px / a / g1)
    vz = math.tan(py / a / g1) * math.hypot(1, vy)
    aa = vy * vy + vz * vz / one + 1
    det = 4 * g * g - 4 * aa * (g * g - 1)
    if det < 0:
        return None
    k = (2 * g - math.sqrt(det)) / 2 / aa
    ux, uy, uz = g - k, vy * k, vz * k
    return math.degrees(math.atan(uz / math.hypot(ux, uy) / one)), math.degrees(math.atan2(uy, ux)) + float(p["srs"]["lon"])


def area(rng, p, around):
    xs, ys = p["xs"], p["ys"]
    far = rng.random() < .1
    x0, x1 = sorted([rng.uniform(0, xs), rng.uniform(0, xs)])
    y0, y1 = sorted([rng.uniform(0, ys), rng.uniform(0, ys)])
    if rng.random() < .3:
        x1, y1 = x0 + .1, y0 + .1
    if far:
        x1 += xs * 2
    a, b = ground(p, x0, y1), ground(p, x1, y0)
    if a is None or b is None:
        return None
    lats, lons = sorted([a[0], b[0]]), sorted([a[1], b[1]])
    r = lambda v: "%.6f" % v
    if around:
        v = [r((lats[0] + lats[1]) / 2), r((lons[0] + lons[1]) / 2), r(lats[1] - lats[0]), r(lons[1] - lons[0])]
    else:
        v = [r(lats[0]), r(lats[1]), r(lons[0]), r(lons[1])]
    return None if all(float(z) == 0 for z in v) else v


def command(rng, sources, action=None, drv=None, big=False):
    """a request and its command line; sources: [(file record, how it is called, dataset record)]"""
    r = {"op": "msat", "files": [f for f, _, _ in sources]}
    args = []
    p = sources[0][2]
    r["action"] = action or rng.choice(ACTIONS)
    if r["action"] == "conv":
        r["drv"] = drv or rng.choice(["GTiff", "GTiff", "GTiff", "MsatGRIB", "MsatGRIB", "Nope"] if rng.random() < .5 else ["GTiff"])
        args.append("--conv=" + r["drv"] if rng.random() < .5 else "-c" + r["drv"])
    elif r["action"] != "view" or rng.random() < .5:
        args.append("--" + r["action"])
    k = rng.random()
    xs, ys = p["xs"], p["ys"]
    if k < .3 or big:
        w, h = rng.randint(1, min(xs, 12)), rng.randint(1, min(ys, 12))
        if big:
            w, h = rng.randint(1, 8), rng.randint(1, 8)
        x, y = rng.randint(0, xs - w), rng.randint(0, ys - h)
        if big and rng.random() < .7:
            y = min(ys - h, max(0, interesting_line(rng, p)))
            x = min(xs - w, max(0, start_of(p, y) + rng.randint(-3, 6)))
        r["srcwin"] = [x, y, w, h]
        if rng.random() < .1:
            r["srcwin"][rng.randrange(4)] += rng.choice([-1, 1, xs])
        args.append("--area=%d,%d,%d,%d" % (r["srcwin"][0], r["srcwin"][2], r["srcwin"][1], r["srcwin"][3]))
    elif k < .55 and "srs" in p and "gt" in p:
        a = area(rng, p, rng.random() < .5)
        around = rng.random() < .5
        a = area(rng, p, around)
        if a:
            r["around" if around else "area"] = a
            args.append(("--around=" if around else "--Area=") + ",".join(a))
    if rng.random() < .2:
        z = [{"pct": False, "n": rng.choice([1, 4, xs, 2 * xs])}, {"pct": False, "n": rng.choice([1, 3, ys])}] if rng.random() < .5 else \
            [{"pct": True, "n": rng.choice([100, 50, 200])} for _ in range(2)]
        if big:
            z = [{"pct": False, "n": rng.randint(1, 9)} for _ in range(2)]
        r["size"] = z
        args.append("--resize=" + ",".join("%d%s" % (v["n"], "%" if v["pct"] else "") for v in z))
    if rng.random() < .35:
        r["bands"] = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if rng.random() < .5:
                n = rng.choice([1, 1, 2, 3] if p.get("nb", 1) > 1 else [1, 1, 1, 1, 2])
                if rng.random() < .05:
                    n = rng.choice([0, 9])
                r["bands"].append({"n": n})
                args.append("--band=%d" % n if rng.random() < .5 else "-b%d" % n)
            else:
                name = rng.choice(["HRV", "hrv", "HRVIS", "band two", "3", "IR_108", "IR_10", "IR", "nobody", "!x"] + [p.get("desc", ["HRV"])[0]] * 3)
                r["bands"].append({"name": name})
                args.append("--band=" + ("!" if name.isdigit() or name[0] == "!" or rng.random() < .3 else "") + name)
    if rng.random() < .2:
        r["force"] = True
        args.append("--force-calibration")
    if r["action"] in ("png", "jpg") and rng.random() < .35:
        st = rng.choice([(0, 100), (0, 255), (10, 200), (-5, 300), (0, 1000), (300, 400), (0, 70000), ("0.5", "20.25"), (-100, 0), (7, 7)])
        r["stretch"] = list(st)
        args.append("--stretch=%s" % st[1] if st[0] == 0 and rng.random() < .5 else "--stretch=%s:%s" % st)
    if rng.random() < .2 and len(sources) > 1 or rng.random() < .05:
        t = rng.choice(sources)
        r["copymd"] = t[0]
        args.append("--copymd=" + t[1])
        if rng.random() < .1:
            r["copymd"] = {"gfile": "nothing.tif"}
            args[-1] = "--copymd=../nothing.tif"
    # bands keep their order
    named = [v for v in args if v.startswith("--band") or v.startswith("-b")]
    args = [v for v in args if v not in named]
    rng.shuffle(args)
    k = rng.randrange(len(args) + 1)
    args[k:k] = named
    calls = [c for _, c, _ in sources]
    r["args"] = args + calls if rng.random() < .8 else calls + args
    return r


def src(p):
    return ({"gfile": p["file"]}, "../" + p["file"], p)


def tif_case(rng):
    n = rng.choice([1, 1, 2, 3])
    ps = [tif(rng, k) for k in range(n)]
    ops = []
    for p in ps:
        ops += [p, {"op": "close", "ds": p["ds"]}]
    for _ in range(2):
        s = [src(p) for p in ps]
        rng.shuffle(s)
        if rng.random() < .05:
            s.insert(rng.randrange(len(s) + 1), ({"gfile": "nothing.tif"}, "../nothing.tif", ps[0]))
        r = command(rng, s)
        if rng.random() < .2:
            # a small disk
            r["limit"] = int(10 ** rng.uniform(0, 4.3))
        if rng.random() < .05:
            r["full"] = True
        ops.append(r)
    return {"ops": ops}


def stats_case(rng):
    """the statistics of the input, kept beside it, are not those of what comes out"""
    a = tif(rng, 0)
    b = tif(rng, 1, file="in1.tif", type=a["type"], mod=a["mod"])
    ops = [a, {"op": "close", "ds": 0}, b, {"op": "close", "ds": 1}]
    for p in (a, b):
        f, call, _ = src(p)
        ops.append({"op": "msat", "files": [f], "action": "viewmore", "args": ["--viewmore", call]})
    for _ in range(3):
        ops.append(command(rng, [src(p) for p in rng.choice([[a], [a], [a, b], [b, a]])], action=rng.choice(["view", "viewmore", "viewmore", "conv"]) if "view" in ACTIONS else None, drv="GTiff"))
    return {"ops": ops}


BAD = ["--area=1,2,3", "--area=x", "--Area=1,2,3", "--Area=", "--around=1,2,3", "--around=a,b,c,d", "--resize=12", "--what", "--conv", "-x", "--copymd"]


def usage_case(rng):
    a = tif(rng, 0)
    f, call, _ = src(a)
    ops = [a, {"op": "close", "ds": 0}]
    for _ in range(3):
        opts = rng.sample(["--png", "--conv=GTiff", "--view", "--force-calibration", "-b1"], rng.randint(0, 2))
        bad = rng.choice(BAD)
        args = opts + ([bad] if rng.random() < .8 else [])
        if bad not in args or rng.random() < .2:
            ops.append({"op": "msat", "files": [], "bad": True, "action": "view", "args": args})
        elif bad in ("--conv", "--copymd"):
            ops.append({"op": "msat", "files": [], "bad": True, "action": "view", "args": [call] + args[:-1] + [bad]})
        else:
            rng.shuffle(args)
            ops.append({"op": "msat", "files": [f], "bad": True, "action": "view", "args": args + [call]})
    return {"ops": ops}


def neat_case(rng):
    """one or two things asked that can be had"""
    while True:
        p = tif(rng, 0, xs=rng.choice([5, 9, 16, 19]), ys=rng.choice([4, 7, 12, 18]))
        if "gt" in p and "srs" in p:
            break
    t = tif(rng, 1)
    ops = [p, {"op": "close", "ds": 0}, t, {"op": "close", "ds": 1}]
    for _ in range(4):
        r = {"op": "msat", "files": [{"gfile": "in0.tif"}], "action": rng.choice(["view", "viewmore", "conv", "conv", "conv"])}
        args = ["--" + r["action"]]
        if r["action"] == "conv":
            r["drv"] = "GTiff"
            args = ["--conv=GTiff"]
        k = rng.random()
        if k < .6:
            around = rng.random() < .5
            a = area(rng, p, around)
            if a:
                r["around" if around else "area"] = a
                args.append(("--around=" if around else "--Area=") + ",".join(a))
        elif k < .75:
            w, h = rng.randint(1, p["xs"]), rng.randint(1, p["ys"])
            x, y = rng.randint(0, p["xs"] - w), rng.randint(0, p["ys"] - h)
            r["srcwin"] = [x, y, w, h]
            args.append("--area=%d,%d,%d,%d" % (x, w, y, h))
        if rng.random() < .3:
            r["bands"] = [{"n": rng.randint(1, p["nb"])} for _ in range(rng.randint(1, 3))]
            args += ["-b%d" % b["n"] for b in r["bands"]]
        elif "desc" in p and rng.random() < .4:
            names = [rng.choice(p["desc"]) for _ in range(rng.randint(1, 2))]
            r["bands"] = [{"name": n} for n in names]
            args += ["--band=!" + n for n in names]
        if rng.random() < .25:
            r["copymd"] = {"gfile": "in1.tif"}
            args.append("--copymd=../in1.tif")
        if rng.random() < .2:
            r["size"] = [{"pct": False, "n": rng.randint(1, 20)}, {"pct": False, "n": rng.randint(1, 15)}]
            args.append("--resize=%d,%d" % tuple(v["n"] for v in r["size"]))
        if rng.random() < .15:
            r["force"] = True
            args.append("--force-calibration")
        r["args"] = args + ["../in0.tif"]
        ops.append(r)
    return {"ops": ops}


def gray_case(rng):
    """images of all types of pixels, with little else asked"""
    ops, files, calls = [], [], []
    for k in range(rng.choice([1, 1, 2])):
        p = tif(rng, k, type=rng.choice(["Byte", "UInt16", "Int16", "Int32", "Float32", "Float64"]))
        if p["type"] not in ("Byte", "UInt16") and "lift" not in p and rng.random() < .6:
            p["lift"] = rng.choice([100, 60, 1000])
        # every band its own file
        p["each"] = [{"chan": c, "chid": str(CHANNELS.index(c))} for c in rng.sample(CHANNELS[1:13], p["nb"])]
        files.append(p)
        ops += [p, {"op": "close", "ds": k}]
    for _ in range(3):
        ps = rng.sample(files, rng.randint(1, len(files)))
        r = {"op": "msat", "files": [{"gfile": p["file"]} for p in ps], "action": "png"}
        args = ["--png"]
        k = rng.random()
        xs, ys = min(p["xs"] for p in ps), min(p["ys"] for p in ps)
        if k < .2:
            w, h = rng.randint(1, xs), rng.randint(1, ys)
            x, y = rng.randint(0, xs - w), rng.randint(0, ys - h)
            r["srcwin"] = [x, y, w, h]
            args.append("--area=%d,%d,%d,%d" % (x, w, y, h))
        elif k < .3:
            r["size"] = [{"pct": False, "n": rng.randint(1, 20)}, {"pct": False, "n": rng.randint(1, 15)}]
            args.append("--resize=%d,%d" % tuple(v["n"] for v in r["size"]))
        if rng.random() < .3:
            p = ps[0]
            lo, hi = sorted([rng.randint(-5, p["mod"]), rng.randint(0, p["mod"] + 50)])
            v = sorted((u - p.get("lift", 0)) * float(p.get("mul", 1)) for u in (lo, hi + 1))
            r["stretch"] = [repr(u) for u in v]
            args.append("--stretch=%s:%s" % tuple(r["stretch"]))
        if rng.random() < .2:
            r["force"] = True
            args.append("--force-calibration")
        r["args"] = args + ["../" + p["file"] for p in ps]
        ops.append(r)
    return {"ops": ops}


def cap_case(rng):
    ps = [tif(rng, k, small=rng.random() < .3, type=rng.choice(["Byte", "UInt16"])) for k in range(rng.choice([1, 2, 3]))]
    ops = []
    for k, p in enumerate(ps):
        # every one its own name
        p = ps[k] = mem_seen(p["ds"], when=(2006, 11, 14, 12, k), chan=9, sat=55, **{a: p[a] for a in ("xs", "ys", "nb", "file", "type", "mod", "flat") if a in p})
        ops += [p, {"op": "close", "ds": p["ds"]}]
    a = rng.choice(["png", "png", "jpg"])
    return {"ops": ops + [{"op": "msat", "files": [{"gfile": p["file"]} for p in ps], "action": a, "args": ["--" + a] + ["../" + p["file"] for p in ps]}]}


def xrit_case(rng):
    p = random_product(rng, segl=464, cols=rng.choice([5, 9, 40]))
    n = -(-full(p["chan"]) // 464)
    d = dict(p, xs=full(p["chan"]), ys=full(p["chan"]), nb=1, desc=[CHANNELS[p["chan"]]])
    step = float(p["stephrv"] if p["chan"] == 12 else p["step"]) * 1000
    import struct
    step = struct.unpack("f", struct.pack("f", struct.unpack("f", struct.pack("f", step / 1000))[0] * 1000))[0]
    d["gt"], d["srs"] = [-(d["xs"] // 2) * step, step, 0, (d["xs"] // 2) * step, 0, -step], {"lon": "0"}
    s = [({"name": short(p)}, "../" + "".join(map(chr, short(p))), d)]
    if rng.random() < .1:
        s.append(({"name": short(p, "VIS008" if p["chan"] != 2 else "VIS006")}, "../" + "".join(map(chr, short(p, "VIS008" if p["chan"] != 2 else "VIS006"))), d))
    return {"ops": [p] + [command(rng, s, big=True) for _ in range(2)]}


def grib_case(rng):
    """files made by our own driver, and by the command itself"""
    p = gribs.image(rng, 0, nb=1, exact=True)
    ops = [p, gribs.write(0, 1, file="g.grib"), {"op": "close", "ds": 1}]
    s = [({"gfile": "g.grib"}, "../g.grib", dict(p, nb=1, desc=["HRV"]))]
    ops.append(command(rng, s, action=rng.choice(["view", "conv", "conv", "png"]), drv=rng.choice(["GTiff", "MsatGRIB"])))
    t = tif_from(rng)
    ops += [t, {"op": "close", "ds": t["ds"]}, command(rng, [src(t)], action="conv", drv="MsatGRIB")]
    return {"ops": ops}


def tif_from(rng):
    p = gribs.image(rng, 5, exact=True, nb=1)
    p["file"] = "t.tif"
    return p
