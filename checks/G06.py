"""G06: crops, resamplings, band selections and copies keep pixels at their place."""
from rasters import *


def replay_case(rng, hist):
    """the model's requests one on the result of the other; which are no-ops or refused is not known here"""
    # a request that changes nothing gives back its own dataset: it is not numbered, and a refused one ends the history
    src = mem(0, xs=4, ys=3, nb=2, mod=251, gt=[100, 10, 0, 500, 0, -20], unit="K", desc=["first", "second"], scale="0.5", ofs=-3)
    if rng.random() < .3:
        src["file"] = "start.tif"
    ops = [src]
    cur, xs, ys, nb = 0, 4, 3, 2
    for k, r in enumerate(hist):
        n = k + 1
        ops.append(xlate(r, (cur, n)))
        w = r.get("srcwin", [0, 0, xs, ys])
        if w[2] == 0 and w[3] == 0:
            w = [w[0], w[1], xs, ys]
        if "projwin" in r:
            break
        bad = w[0] < 0 or w[1] < 0 or w[2] <= 0 or w[3] <= 0 or w[0] + w[2] > xs or w[1] + w[3] > ys or any(b > nb or b < 1 for b in r.get("bands", []))
        if bad:
            break
        noop = w == [0, 0, xs, ys] and not (set(r) - {"srcwin", "bands"}) and r.get("bands", list(range(1, nb + 1))) == list(range(1, nb + 1))
        if noop:
            continue
        o = [z["n"] * w[i + 2] // 100 if z["pct"] else z["n"] for i, z in enumerate(r["size"])] if "size" in r else [w[2], w[3]]
        if min(o) <= 0:
            break
        cur, xs, ys, nb = n, o[0], o[1], len(r.get("bands", [0] * nb))
        ops.append({"op": "info", "ds": cur})
        for b in range(1, nb + 1):
            ops.append(read(cur, 0, 0, xs, ys, band=b))
    return {"ops": ops}


def random_case(rng):
    """several sources, the same request over all of them, then copies in files"""
    ops, srcs = [], []
    for i in range(rng.choice([1, 1, 2, 3])):
        xs, ys, nb = rng.randint(1, 12), rng.randint(1, 9), rng.randint(1, 3)
        kw = {}
        gt = None
        if rng.random() < .8:
            gt = [rng.choice([0, -50, 1000]), rng.choice([1, 10, "0.5"]), 0, rng.choice([0, 700]), 0, rng.choice([-1, -20, "-0.5"])]
            if rng.random() < .3:
                gt[rng.choice([2, 4])] = rng.choice([3, "-0.25"])
                if rng.random() < .5:
                    gt[2] = gt[4] = "0.5"
            kw["gt"] = gt
        if rng.random() < .5:
            kw.update(scale="0.5", ofs="-3.25", unit="K", desc=["b%d" % b for b in range(nb)])
        if rng.random() < .4:
            kw["nodata"] = 3
        if rng.random() < .4:
            kw["each"] = each(rng, nb)
        if rng.random() < .5:
            kw["srs"] = {"lon": rng.choice(["0", "9.5"])}
        kw["type"] = rng.choice(["UInt16", "Byte", "Float32", "Int16", "Float64"])
        ops.append(mem_seen(i, when=(2006, 11, 14, 12, 45), chan=rng.choice([1, 9]), sat=55, xs=xs, ys=ys, nb=nb, mod=rng.choice([255, 97]), **wild(rng, kw)))
        srcs.append((xs, ys, nb, [float(v) for v in gt] if gt else None))
    n = 10
    xs, ys, nb = min(s[0] for s in srcs), min(s[1] for s in srcs), min(s[2] for s in srcs)
    gts = [s[3] for s in srcs]
    r = random_request(rng, xs, ys, nb, gts[0] if all(g == gts[0] for g in gts) and gts[0] else None)
    # all results are looked at after the whole request was served
    ops.append(xlate(r, *[(i, n + i) for i in range(len(srcs))]))
    for i, (sx, sy, sb, _) in enumerate(srcs):
        # a result exists unless refused or unchanged: look through a copy of the source when it does not
        ops.append({"op": "info", "ds": n + i, "maybe": i})
        for _ in range(2):
            ops.append({"op": "read", "ds": n + i, "maybe": i, "all": True, "band": rng.randint(1, min(nb, len(r["bands"])) if "bands" in r else nb)})
    return {"ops": ops}


def box_case(rng):
    xs, ys, nb = rng.randint(2, 12), rng.randint(2, 9), rng.randint(1, 2)
    kw = wild(rng, dict({"type": rng.choice(["UInt16", "Byte", "Float32", "Int16"])}, **({"nodata": 5} if rng.random() < .4 else {})))
    ops = [mem_seen(0, when=(2007, 1, 31, 0, 15), chan=rng.choice([2, 10]), sat=56, xs=xs, ys=ys, nb=nb, gt=[-3000, 1000, 0, 6000, 0, -1000],
                    srs={"lon": "0"}, scale="0.25", ofs=-7, unit="K", **kw)]
    n = 1
    for _ in range(3):
        w, h = rng.randint(1, xs), rng.randint(1, ys)
        x, y = rng.randint(0, xs - w), rng.randint(0, ys - h)
        o = {"op": "recode", "src": 0, "ds": n, "drv": "GTiff", "file": "r%d.tif" % n}
        k = rng.random()
        if k < .7:
            o["box"] = [x, y, x + w, y + h]
            if rng.random() < .15:
                o["box"][rng.randrange(4)] += rng.choice([-3, 5])
        if k >= .7 or rng.random() < .5:
            o["size"] = [rng.choice([w, 1, 2 * w, w + 1]), rng.choice([h, 1, 2 * h, 3])]
        ops.append(o)
        b = o.get("box", [0, 0, xs, ys])
        ok = b[0] >= 0 and b[1] >= 0 and b[2] > b[0] and b[3] > b[1] and b[2] <= xs and b[3] <= ys
        if ok:
            ow, oh = o["size"] if "size" in o else (b[2] - b[0], b[3] - b[1])
            ops += [{"op": "info", "ds": n}, read(n, 0, 0, ow, oh, band=nb), {"op": "close", "ds": n},
                    {"op": "open", "ds": n, "name": codes(o["file"]), "gfile": o["file"]}, {"op": "info", "ds": n}, read(n, 0, 0, ow, oh)]
        n += 1
    return {"ops": ops}


def product_case(rng):
    """crops of the real thing, and copies of crops"""
    chan = rng.choice([1, 9, 12])
    p = random_product(rng, chan, cols=40, segs=[1, 2, 3, 24] if chan == 12 else [1, 2, 3])
    top = full(chan)
    ops = [p, open_(0, p, compute=rng.choice([None, None, "jday", "sat_za"]))]
    n = 1
    for _ in range(3):
        y = interesting_line(rng, p)
        st = start_of(p, y)
        w, h = rng.randint(1, 50), rng.randint(1, 5)
        x = min(max(0, st + rng.randint(-4, 30)), top - w)
        y = min(y, top - h)
        r = {"srcwin": [x, y, w, h]}
        if rng.random() < .3:
            r["size"] = [{"pct": False, "n": rng.choice([w, w * 2, max(1, w // 2)])}, {"pct": False, "n": rng.choice([h, h * 2, 1])}]
        ops += [xlate(r, (0, n)), {"op": "info", "ds": n}]
        ow, oh = (r["size"][0]["n"], r["size"][1]["n"]) if "size" in r else (w, h)
        rw, rh = min(ow, 8), min(oh, 3)
        rx, ry = rng.randint(0, ow - rw), rng.randint(0, oh - rh)
        ops.append(read(n, rx, ry, rw, rh))
        if rng.random() < .5:
            f = "c%d.tif" % n
            ops += [{"op": "copy", "src": n, "ds": n + 50, "drv": "GTiff", "file": f}, {"op": "close", "ds": n + 50},
                    {"op": "open", "ds": n + 50, "name": codes(f), "gfile": f}, {"op": "info", "ds": n + 50}, read(n + 50, rx, ry, rw, rh)]
        n += 1
    return {"ops": ops}


def points(rng, k):
    return [[rng.choice([0, 1, 3, "2.5"]), rng.choice([0, 2, "0.5"]), rng.randint(-50, 50), rng.randint(-50, 50), rng.choice([0, 7])] for _ in range(k)]


def marked(rng):
    """ground control points, a projection given, indices into a table of colours; over several datasets at once"""
    ops, n = [], rng.choice([1, 1, 2, 3])
    xs, ys, nb = rng.randint(2, 9), rng.randint(2, 7), rng.randint(1, 3)
    colours = [[rng.randrange(256) for _ in range(4)] for _ in range(rng.randint(20, 255))]
    for i in range(n):
        kw = {}
        if rng.random() < .6:
            kw["gcps"] = points(rng, rng.randint(1, 4))
        if rng.random() < .6:
            kw["gt"] = [100, 10, 0, 500, 0, -20]
        if rng.random() < .5:
            kw["srs"] = {"lon": rng.choice(["0", "9.5"])}
        if rng.random() < .8:
            kw["ct"] = colours
        ops.append(mem_seen(i, when=(2006, 11, 14, 12, 45), chan=1, sat=55, xs=xs, ys=ys, nb=nb, mod=rng.choice([7, 19]), type=rng.choice(["Byte", "Byte", "UInt16"]), **kw))
    r = {}
    w, h = rng.randint(1, xs), rng.randint(1, ys)
    if rng.random() < .7:
        r["srcwin"] = [rng.randint(0, xs - w), rng.randint(0, ys - h), w, h]
    if rng.random() < .4:
        r["size"] = [{"pct": False, "n": rng.choice([w, 2 * w, 3])}, {"pct": False, "n": rng.choice([h, 1, 2 * h])}]
    if rng.random() < .3:
        r["gcps"] = points(rng, rng.randint(1, 3))
    if rng.random() < .3:
        r["osrs"] = {"lon": rng.choice(["0", "41.5", "-3"])}
    if rng.random() < .3:
        r["bands"] = [rng.randint(1, nb) for _ in range(rng.randint(1, 4))]
    many = len(r["bands"]) if "bands" in r else nb
    if rng.random() < .5:
        r["expand"] = rng.choice([3, 4])
        many += r["expand"] - 1
    ops.append(xlate(r, *[(i, 10 + i) for i in range(n)]))
    for i in range(n):
        ops.append({"op": "info", "ds": 10 + i, "maybe": i})
        if "ct" in ops[i] or "expand" not in r:
            ops += [{"op": "read", "ds": 10 + i, "maybe": i, "all": True, "band": b} for b in range(1, many + 1)]
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("XlateMC", c.pick("XlateMC.cfg", "XlateMC3.cfg"), "requests applied one on the result of the other", workers=8)
    beh = r.emitted
    c.rng.shuffle(beh)
    cases = [replay_case(c.rng, h) for h in beh[:c.pick(700, 8000)]]
    cases += [random_case(c.rng) for _ in range(c.pick(400, 4000))]
    cases += [marked(c.rng) for _ in range(c.pick(250, 2500))]
    cases += [box_case(c.rng) for _ in range(c.pick(200, 2000))]
    cases += [product_case(c.rng) for _ in range(c.pick(120, 1200))]
    c.conform("d_gdal", "RasterTrace", cases, name="translations", shards=8)
