"""Generation of products and command lines for the commands that show files."""


def product(rng, wide=False, odd=0.0):
    hrv = rng.random() < .35
    side = 11136 if hrv else 3712
    if wide:
        # few lines, long enough to show in the picture of the whole
        segl = rng.choice([8, 40]) if not hrv else rng.choice([40, 25])
        end = -(-rng.choice([160, 200, 320] if not hrv else [470, 960]) // segl)
        cols, bpp = rng.choice([300, 600, 1024, 3712] if not hrv else [300, 2000, 5568]), 8
        if cols >= 1020 and rng.random() < .5:
            bpp = 10
    else:
        segl = rng.choice([464, 232, 100, 7, 1, 3])
        end = -(-side // segl) if segl > 99 else rng.choice([1, 2, 3, 12])
        cols, bpp = rng.choice([1, 2, 5, 9, 51]), rng.choice([10, 10, 8, 12])
        if cols * segl > 5000:
            cols = 5
    keep = rng.choice([1, 1, .9, .5, .1])
    segs = [s for s in range(1, end + 1) if rng.random() < keep] or [rng.randint(1, end)]
    names = list(segs)
    if rng.random() < .3:
        rng.shuffle(names)
    flat = rng.random() < .3
    out = []
    for s, n in zip(segs, names):
        g = {"seq": s, "file": n}
        if flat and rng.random() < .5 or rng.random() < .05:
            g["flat"] = rng.choice([0, 1, 7, 255, 600, 1023])
        out.append(g)
    if rng.random() < odd:
        g = rng.choice(out)
        k = rng.random()
        if k < .3:
            g["cut"] = rng.choice([2, 2 * cols, 2 * cols * segl])
        elif k < .6:
            g["keep"] = rng.choice([0, 10, 15, 40, 100, 130, 150, 16 + 9 + 51 + 64 + 10 + 13, 500])
        elif k < .75:
            g["seq"] = rng.choice([0, end + 1, end + 2, 65535, 1000])
        elif len(out) > 1:
            g.update(rng.choice([{"cols": cols + 1}, {"segl": segl + 1}, {"end": end + 1}, {"cols": max(1, cols - 1)}]))
    from rasters import random_cov
    cov = random_cov(rng) if hrv else [1, 8000, 100, 5667, 8001, 11136, 2000, 7567]
    if hrv and rng.random() < .5:
        # the only window, far enough south for few lines to show
        cov = rng.choice([[1, 11136, 2000, 7567, 0, 0, 0, 0], [1, 300, 1, 5568, 301, 11136, 5000, 10567], [1, 8064, 2000, 7567, 8065, 11136, 1500, 7067]])
    return {"op": "product", "hrv": hrv, "cols": cols, "segl": segl, "end": end, "segs": out, "bpp": bpp, "cov": cov,
            "cfac": rng.choice([-13642337, -13642337, 13642337]), "lfac": -13642337}


def short(p):
    return "p/H:MSG1:%s:200611141200" % ("HRV" if p["hrv"] else "IR_108")


def dump(rng, p):
    fs = [short(p)] * rng.choice([1, 1, 1, 2])
    if rng.random() < .08:
        fs.insert(rng.randrange(len(fs) + 1), rng.choice(["p/H:MSG1:VIS006:200611141200", "p/H:MSG2:IR_108:200611141200", "nothing", "p"]))
    if rng.random() < .02:
        fs = []
    return {"op": "dump", "files": fs}


def draw(rng, p, plain=False):
    chan = "HRV" if p["hrv"] else "IR_108"
    r = {"op": "draw", "fmt": "pgm" if plain or rng.random() < .85 else rng.choice(["jpg", "png", "gif"]), "g": 100, "norm": rng.random() < .35, "wrong": False, "nowhere": False}
    opts = [["-d", "../p"], ["-r", "H"], ["-s", "MSG1"], ["-c", chan], ["-t", "200611141200"]]
    if rng.random() < .3:
        opts = [["--directory", "../p"], ["--resolution=H"], ["--productid1", "MSG1"], ["--productid2", chan], ["--time", "200611141200"]]
    w, h = p["cols"], p["segl"] * p["end"]
    if r["fmt"] != "jpg" or rng.random() < .5:
        opts.append(["-f", r["fmt"]])
    if r["norm"]:
        opts.append(["-n"] if rng.random() < .5 else ["--normalize"])
    if rng.random() < .3 and not plain:
        r["g"] = rng.choice([100, 150, 50, 20, 75, 40, 60, rng.randint(5, 99)])
        if (w * r["g"]) // 100 < 1 or (h * r["g"]) // 100 < 1:
            r["g"] = 100
        opts.append(["-g", "%g" % (r["g"] / 100)])
    if rng.random() < .2:
        r["overlay"] = {"w": rng.choice([1, w, w, max(1, w // 2)]), "h": rng.choice([1, h, h, max(1, h // 2)]), "a": rng.randint(0, 9), "b": rng.randint(0, 9), "n": rng.randint(1, 60), "k": rng.choice([1, 300, 1100])}
        opts.append(["-o", "../overlay.pgm"])
    k = rng.random()
    if k < .04:
        r["wrong"] = True
        o = rng.randrange(5)
        opts[o] = [["-d", "../q"], ["-r", "L"], ["-s", "MSG2"], ["-c", "WV_062"], ["-t", "200611141215"]][o]
    elif k < .06 and "overlay" not in r and not p["hrv"]:
        r["nowhere"] = True
        opts.append(["-o", "../missing.pgm"])
    elif k < .08:
        r["nowhere"] = True
        opts = [o for o in opts if o[0] != "-f"] + [["-f", "x/pgm"]]
        r["fmt"] = "x"
    rng.shuffle(opts)
    r["args"] = sum(opts, [])
    return r


def ndraw(rng, chans):
    ch = rng.choice(list(chans) * 3 + [rng.randrange(12)])
    g = rng.choice([100, 100, 100, 50, 200, 10, 37])
    r = {"op": "ndraw", "ch": ch, "g": g, "fmt": "pgm" if rng.random() < .9 else "png"}
    r["args"] = ["../f", str(ch), r["fmt"], "%g" % (g / 100)]
    return r
