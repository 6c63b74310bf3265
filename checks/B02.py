"""B02: what cannot be GRIB is refused."""
from gribs import *

SAMPLES = ["GRIB1", "GRIB2", "regular_ll_sfc_grib1", "regular_ll_sfc_grib2", "polar_stereographic_pl_grib2", "reduced_gg_pl_32_grib2", "sh_ml_grib1"]


def bad_image(rng, ds):
    kind = rng.choice(["nosrs", "latlon", "height", "nogt", "rot", "step", "step", "outside", "missing", "template", "stranger", "good", "ystep", "near"])
    hrv = rng.random() < .3
    kw = {}
    tpl = rng.choice(TPL)
    g = grid(hrv, rng.randint(-200, 200), rng.randint(-200, 200))
    if kind == "nosrs":
        kw["srs"] = None
    if kind == "latlon":
        kw["srs"] = {}
    if kind == "height":
        kw["srs"] = {"lon": "0", "h": rng.choice([35785830, 35786000, 0, 42164000])}
    if kind == "nogt":
        g = None
    if kind == "rot":
        g[rng.choice([2, 4])] = rng.choice(["0.001", -3, 1])
    if kind == "step":
        g[1] = repr(float(g[1]) + rng.choice([.01, -.01, 2000, -.0003, .0003]))
    if kind == "ystep":
        g[5] = rng.choice([repr(-float(g[5])), repr(PX[not hrv]), repr(-PX[not hrv]), repr(float(g[5]) - .01)])
    if kind == "near":
        g[1] = repr(float(g[1]) + .00005)
    if kind == "outside":
        i = rng.choice([0, 3])
        far = (5568 if hrv else 1856) + rng.choice([1, 2, 700])
        g[i] = repr((-far if i == 0 else far) * PX[hrv])
    if kind == "missing":
        kw.update(flat=7, nodata=7)
    if kind == "template":
        tpl = rng.choice(["msat/WMO", "msat", "wmo", "ecmwf", "msat/wmo "])
    if kind == "stranger":
        tpl = "msat/wmo"
        kw.update(rng.choice([{"sat": None}, {"chan": None}, {"sat": None, "chan": None}]))
    o = image(rng, ds, hrv=hrv, gt=g, **kw)
    if kind == "stranger" and o["chan"] != "(none)" and rng.random() < .5:
        o["sc"], o["scid"] = "(none)", rng.choice(["54", "999", "3"])
        o["md"] = [m for m in o["md"] if m[0] == "MSAT_DATETIME"] + [["MSAT_SPACECRAFTID", o["scid"]]]
    return o, tpl


def refused(rng):
    ops = []
    for k in range(3):
        o, tpl = bad_image(rng, k)
        ops += [o, write(k, 10 + k, tpl), {"op": "info", "ds": 10 + k, "maybe": k}, {"op": "read", "ds": 10 + k, "maybe": k, "all": True}]
    return {"ops": ops}


def damaged(rng):
    """files that something happened to"""
    ops = [image(rng, 0), image(rng, 1), write(0, 10, rng.choice(TPL), "a.grib"), write(1, 11, rng.choice(TPL), "b.grib"),
           {"op": "alias", "ds": 10, "src": 0}, {"op": "alias", "ds": 11, "src": 1}]
    n = 20
    cut, longer = False, False
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < .45 and not longer:
            # a message that lost its end; what is left of its head says GRIB, or does not
            f = rng.choice(["a.grib", "b.grib"])
            ops.append({"op": "mutate", "file": f, "what": "cut", "n": rng.choice([0, 1, 3, 4, 7, 8, 16, 40, 100, -1, -2, -4, -5, rng.randint(0, 200)])})
            cut = True
        elif k < .6 and not cut:
            f = rng.choice(["a.grib", "b.grib"])
            ops.append({"op": "mutate", "file": f, "what": "prefix", "n": rng.choice([1, 5, 200, 1024, 3000])})
            cut = True
        elif k < .75 and not cut:
            f, g = rng.choice([("a.grib", "b.grib"), ("b.grib", "a.grib")])
            ops.append({"op": "mutate", "file": f, "what": "append", "n": 0, "other": g})
            longer = True
        elif k >= .75:
            f = rng.choice(["c.grib", "a.grib"])
            ops.append({"op": "sample", "file": f, "sample": rng.choice(SAMPLES)})
            cut = True
        else:
            continue
        ops += [reopen(n, f, rng.choice([None, None, "jday", "reflectance"])), {"op": "info", "ds": n, "maybe": 10}, {"op": "read", "ds": n, "maybe": 10, "all": True}]
        n += 1
    # what was opened before stays
    ops += [{"op": "read", "ds": 10, "maybe": 0, "all": True}, {"op": "read", "ds": 11, "maybe": 1, "all": True}, {"op": "info", "ds": 10, "maybe": 0}]
    return {"ops": ops}


def unreadable(rng):
    """a crop over lines that cannot be read"""
    p = random_product(rng, rng.choice([1, 9]), segs=[1, 2, 3, 4], names=None, segl=464, step="3.00040307617188", cols=9)
    for g in p["segs"]:
        if g["seq"] in (2, 3):
            g["cut"] = 2 * p["cols"]
    p["big"] = 0
    ops = [p, open_(0, p)]
    n = 1
    for _ in range(3):
        y = 3712 - rng.choice([464, 464 * 3, 464 * 2]) - rng.randint(-4, 9)
        r = {"srcwin": [rng.choice([0, 0, 5]), min(y, 3706), rng.randint(1, 6), rng.randint(1, 6)]}
        ops += [xlate(r, (0, n)), {"op": "alias", "ds": n, "src": 0}, write(n, n + 1, rng.choice(TPL)), {"op": "info", "ds": n + 1, "maybe": n}]
        n += 2
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    c.model("GribMC", c.pick("GribMC.cfg", "GribMC3.cfg"), "what is refused, among images written, cropped and written again", workers=8)
    cases = [refused(c.rng) for _ in range(c.pick(350, 5000))]
    cases += [damaged(c.rng) for _ in range(c.pick(300, 4000))]
    cases += [unreadable(c.rng) for _ in range(c.pick(60, 600))]
    c.conform("d_gdal", "RasterTrace", cases, name="grib", shards=8)
