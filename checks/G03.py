"""G03: opening by name, what is refused and how; reads that cannot be answered."""
from rasters import *

CH = {"IR_039": 4, "IR_108": 9, "IR_134": 11, "VIS006": 1}


def replay(rng, hist):
    prods = {c: product(n, segs=[1], cols=3, slope="0.2", ofs="-1") for c, n in CH.items()}
    ops = []
    bare = lambda p, **kw: {**p, **{"nopro": True, "noepi": True}, **kw}

    def put(k):
        if k == "pro":
            ops.append(bare(prods["VIS006"], segs=[], nopro=False))
        elif k == "epi":
            ops.append(bare(prods["VIS006"], segs=[], noepi=False))
        else:
            ops.append(bare(prods[k]))
    for k in hist[0][1]:
        put(k)
    n = 0
    for h in hist[1:]:
        if h[0] == "add":
            put(h[1])
        elif h[0] == "del":
            ops.append(rm(prods["VIS006"], h[1]) if h[1] in ("pro", "epi") else rm(prods[h[1]], "seg"))
        else:
            suf = "".join(map(chr, h[2]))
            ops.append(open_(n, prods[h[1]], suffix=suf, compute=h[3] or None, form=rng.choice(["short", "seg"]),
                             op=rng.choice(["open", "identify"])))
            n += 1
    return {"ops": ops}


def bad_names(rng):
    """names that are not, or hardly, those of a product that is there"""
    p = product(rng.choice([1, 4, 12]), segs=[1, 2], cols=3)
    ops = [p]
    good = "".join(map(chr, rng.choice([short(p), segname(p)])))
    for k in range(6):
        s = list(good)
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            i = rng.randrange(len(s))
            if r < .4:
                s[i] = rng.choice(":-_/Hra1X")
            elif r < .7:
                del s[i]
            else:
                s.insert(i, rng.choice(":-_/Hra1X"))
        o = {"op": rng.choice(["open", "identify"]), "ds": k, "name": codes("".join(s)), "drv": "MsatXRIT"}
        w = rng.choice([None, None, "jday", "cos_sol_za", "nosuch"])
        if w:
            o["opts"], o["compute"] = ["MSAT_COMPUTE=" + w], w
        ops.append(o)
    return {"ops": ops}


def damaged(rng):
    """segments cut short, samples that no count can have: those lines are errors, the others read"""
    chan = rng.choice([1, 4, 5, 9, 11, 12])
    p = random_product(rng, chan, segs=[1, 2, 3, 4], names=None, segl=464, cov=random_cov(rng) if chan == 12 else None)
    q = rng.choice([(), (1,), (2, 3), (1, 2, 3, 4)])
    for g in p["segs"]:
        if g["seq"] in q:
            g["cut"] = 2 * p["cols"]
    p["big"] = rng.choice([1021, 257, 257]) if chan in (4, 5, 9, 11) and p["bpp"] == 8 and rng.random() < .8 else 0
    ops = [p, open_(0, p)]
    w = rng.choice([None, None, "jday", "reflectance" if chan in (1, 12) else None])
    if w:
        ops[1] = open_(0, p, compute=w)
    top = full(chan)
    for _ in range(8):
        s = rng.choice([1, 2, 3, 4, 5])
        y = min(top - 1, max(0, top - (s - 1) * 464 - rng.randint(1, 464)))
        st = start_of(p, y)
        if p["big"] == 257 and rng.random() < .7:
            # a line with the first count that cannot be
            seg, l, k = rng.choice([(a, b, d) for a in range(1, 5) for b in range(464) for d in range(p["cols"]) if (a * 331 + b * 37 + d * 7) % 256 == 255])
            y = top - 1 - ((seg - 1) * 464 + l)
        x = min(top - 2, st + rng.randrange(p["cols"] + 1))
        ops.append(read(0, x, y, 2, 1))
    return {"ops": ops}


def any_channel(rng):
    """every channel, every suffix; channels that do not exist"""
    chan = rng.choice(list(range(1, 13)) * 2 + [0, 13, 14, 255])
    if chan in range(1, 13):
        p = product(chan, segs=[1, 2], cols=3)
    else:
        p = product(chan, segs=[1, 2], cols=3, p2=rng.choice(["VIS006", "IR_108", "NEW"]))
    ops = [p]
    for k in range(4):
        ops.append(open_(k, p, suffix=rng.choice(["", "", "r", "a", "ra", "x"]), form=rng.choice(["short", "seg"]),
                         compute=rng.choice([None, None, "reflectance", "cos_sol_za", "sat_za", "jday"]), op=rng.choice(["open", "identify"])))
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("OpenMC", "OpenMC3.cfg", "files of a product come and go, names are opened in between", workers=8)
    beh = r.emitted
    c.rng.shuffle(beh)
    # half with a change of the files in between
    a = [h for h in beh if len(h) == 4]
    b = [h for h in beh if len(h) == 3]
    n = c.pick(500, 6000)
    cases = [replay(c.rng, h) for h in a[:n] + b[:n]]
    cases += [bad_names(c.rng) for _ in range(c.pick(250, 3000))]
    cases += [any_channel(c.rng) for _ in range(c.pick(120, 1200))]
    cases += [damaged(c.rng) for _ in range(c.pick(150, 2000))]
    c.conform("d_gdal", "RasterTrace", cases, name="opening", shards=8)
