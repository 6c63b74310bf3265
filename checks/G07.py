"""G07: pixels, projected coordinates, latitudes and longitudes, and back."""
from rasters import *


def gts_case(rng, gts):
    ops = []
    for g in gts:
        ops.append({"op": "invgt", "gt": g})
    for k, g in enumerate(rng.sample(gts, min(3, len(gts)))):
        kw = {"gt": g}
        r = rng.random()
        if r < .75:
            kw["srs"] = {"lon": "0"}
        ops += [mem(k, xs=5, ys=4, nb=1, **kw), {"op": "georef", "gr": k, "src": k}]
        if g[1] * g[5] != g[2] * g[4] and "srs" in kw:
            for _ in range(3):
                ops.append({"op": "geo", "gr": k, "x": rng.randint(0, 4), "y": rng.randint(0, 3)})
    return {"ops": ops}


def geos_case(rng):
    """grids as satellites have them, whole discs and crops, and grids in degrees"""
    ops = []
    r = rng.random()
    if r < .15:
        gt = [rng.choice([-10, 5, "20.25"]), rng.choice([1, "0.5", "0.1"]), 0, rng.choice([60, "45.5", 10]), 0, rng.choice([-1, "-0.25"])]
        ops.append(mem(0, xs=40, ys=40, nb=1, gt=gt, srs={}))
        dim = 40
    else:
        step = rng.choice([3000.40307617188, 1000.13433837891, 3000.0, 12000.5])
        xo, yo = rng.choice([(1856, 1856), (5568, 5568), (0, 0), (300, 1200), (-200, 1700), (1000, -300)])
        gt = [repr(-step * xo), repr(step), 0, repr(step * yo), 0, repr(-step)]
        ops.append(mem(0, xs=3712, ys=2, nb=1, flat=0, gt=gt, srs={"lon": rng.choice(["0", "0", "9.5", "-75", "140", "179", "-180"])}))
        dim = int(11136 * 1000 / step)
        o = dict(ops[0])
    ops += [{"op": "decodegt", "ds": 0}, {"op": "georef", "gr": 0, "src": 0}]
    for _ in range(14):
        if r < .15:
            x, y = rng.randint(0, 39), rng.randint(0, 39)
        else:
            import math
            k = rng.random()
            if k < .5:
                a, d = rng.random() * 2 * math.pi, rng.choice([rng.random(), .95, .99, 1.01]) * 5433000 / step
                x, y = xo + int(d * math.cos(a)), yo + int(d * math.sin(a))
            else:
                x, y = rng.randint(-10, dim), rng.randint(-10, dim)
        ops.append({"op": "geo", "gr": 0, "x": x, "y": y})
    return {"ops": ops}


def product_case(rng):
    p = random_product(rng, rng.choice([1, 9, 12, 12]), segs=[1], lon=rng.choice([0, 9, -3, 57, 9.5, -3.4]))
    ops = [p, open_(0, p), {"op": "decodegt", "ds": 0}, {"op": "georef", "gr": 0, "src": 0}]
    top = full(p["chan"])
    for _ in range(6):
        ops.append({"op": "geo", "gr": 0, "x": rng.randrange(top), "y": rng.randrange(top)})
    # a crop has the ground of its pixels
    x, y = rng.randrange(top - 9), rng.randrange(top - 9)
    ops += [xlate({"srcwin": [x, y, 8, 8]}, (0, 1)), {"op": "decodegt", "ds": 1}, {"op": "georef", "gr": 1, "src": 1}]
    for _ in range(4):
        ops.append({"op": "geo", "gr": 1, "x": rng.randrange(8), "y": rng.randrange(8)})
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("GeorefMC", "GeorefMC.cfg", "every small geotransform and its inverse", workers=8)
    g = r.emitted
    c.rng.shuffle(g)
    cases = [gts_case(c.rng, g[i:i + 8]) for i in range(0, len(g), 8)]
    cases += [geos_case(c.rng) for _ in range(c.pick(300, 5000))]
    cases += [product_case(c.rng) for _ in range(c.pick(80, 1000))]
    c.conform("d_gdal", "RasterTrace", cases, name="georef", shards=8)
