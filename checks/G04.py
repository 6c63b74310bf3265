"""G04: counts become radiances and temperatures by the calibration of their channel."""
from rasters import *

SLOPES = ["0.02", "0.0205034602", "0.005659", "0.203", "1.5", "0.0001", "4", "0"]
OFS = ["-1", "-1.0456", "-0.288", "-10.4", "0", "-51.25", "-600"]


def xcase(rng, chan, bpp):
    # several channels of one prologue, each with its own coefficients
    others = rng.sample([c for c in range(1, 12) if c != chan], rng.choice([0, 1, 2])) if chan != 12 else []
    cols = rng.choice([1, 5, 40])
    slope, ofs = rng.choice(SLOPES), rng.choice(OFS)
    prods = [product(ch, segs=[1, 2] if ch != 12 else [1, 2, 24], cols=cols, bpp=bpp, slope=slope, ofs=ofs, cfac=rng.choice([-13642337, 13642337]),
                     cov=[1, 8064, 3713, 9280, 8065, 11136, 2000, 7567], big=1021 if ch in (4, 9) and bpp in (10, 12, 8) and rng.random() < .1 else 0) for ch in [chan] + others]
    ops = list(prods)
    for i, p in enumerate(prods):
        ops += [open_(i, p), {"op": "info", "ds": i}, {"op": "calib", "ds": 10 + i, "src": i}, {"op": "info", "ds": 10 + i}]
    for _ in range(10):
        i = rng.randrange(len(prods))
        p = prods[i]
        top = full(p["chan"])
        y = top - 1 - rng.choice([rng.randrange(464), 464 + rng.randrange(464), 1000])
        st = start_of(p, y)
        w = rng.choice([1, cols, cols + 1]) if cols < 10 else rng.randint(1, 20)
        x = min(max(0, st + rng.choice([-1, 0, 0, cols - 1])), top - w)
        ops.append(read(rng.choice([i, 10 + i]), x, y, w, 1))
    return {"ops": ops}


def mem_(ds, rng, **kw):
    xs, ys, nb = rng.randint(1, 9), rng.randint(1, 6), rng.randint(1, 3)
    o = {"op": "mem", "ds": ds, "xs": xs, "ys": ys, "nb": nb, "mod": rng.choice([7, 100, 255]), "type": rng.choice(["UInt16", "UInt16", "Byte", "Float32", "Int16"]),
         "dt": "(none)", "jday": 0, "hour": 0, "scid": "(none)", "sc": "(none)", "chan": "(none)", "chid": "(none)", "nchan": 0,
         "scale": rng.choice(["0.5", "0.0205034602", 3]), "ofs": rng.choice(["-1.0456", 5, "-51.25"])}
    o.update(kw)
    return o


def mcase(rng):
    m = mem_(0, rng)
    if rng.random() < .3:
        m["file"] = "m.tif"
        if rng.random() < .5:
            # stored in tiles, of which the image need not be a multiple
            m["xs"], m["ys"] = rng.randint(1, 70), rng.randint(1, 40)
            m["copts"] = rng.choice([["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"], ["TILED=YES", "BLOCKXSIZE=64", "BLOCKYSIZE=32"], ["BLOCKYSIZE=%d" % rng.randint(1, m["ys"])], ["INTERLEAVE=PIXEL"]])
    if rng.random() < .6:
        m["each"] = each(rng, m["nb"], file="file" in m)
    wild(rng, m)
    ops = [m, {"op": "info", "ds": 0}, {"op": "calib", "ds": 1, "src": 0}, {"op": "info", "ds": 1}]
    for _ in range(4):
        w, h = rng.randint(1, m["xs"]), rng.randint(1, m["ys"])
        ops.append(read(rng.choice([0, 1, 1]), rng.randint(0, m["xs"] - w), rng.randint(0, m["ys"] - h), w, h, band=rng.randint(1, m["nb"])))
    return {"ops": ops}


def huge(rng):
    """files whose whole image is one block"""
    m = mem_(0, rng, xs=rng.choice([2900, 5600]), ys=rng.choice([1500, 1900]), nb=1, type="UInt16", file="h.tif")
    m["copts"] = ["BLOCKYSIZE=%d" % m["ys"]]
    return {"ops": [m, {"op": "calib", "ds": 1, "src": 0}, {"op": "info", "ds": 1}] + [read(1, rng.randrange(m["xs"] - 3), rng.randrange(m["ys"] - 2), 3, 2) for _ in range(3)]}


def ends(rng):
    """the ends of the values, where a dataset tells them"""
    m = mem_(0, rng, nb=1)
    m["scale"] = rng.choice([m["scale"], "-0.5", "-3"])
    lo, hi = sorted(rng.sample(range(0, 255), 2))
    return {"ops": [m, {"op": "calib", "ds": 1, "src": 0}] + ([{"op": "stats", "ds": 0, "lo": lo, "hi": hi}] if rng.random() < .7 else []) +
            [{"op": "calib", "ds": 2, "src": 0}] + [{"op": "ends", "ds": k} for k in (0, 2)]}


def run(c):
    c.build("d_gdal")
    c.model("CalibMC", "CalibMC.cfg", "laws of the calibration over every count of every channel", workers=4)
    cases = []
    for k in range(c.pick(360, 3000)):
        cases.append(xcase(c.rng, 1 + k % 12, [10, 8, 12, 10, 16, 9][(k // 12) % 6]))
    cases += [mcase(c.rng) for _ in range(c.pick(200, 2000))]
    cases += [huge(c.rng) for _ in range(c.pick(3, 12))] + [ends(c.rng) for _ in range(c.pick(60, 600))]
    c.conform("d_gdal", "RasterTrace", cases, name="calibration", shards=8)
