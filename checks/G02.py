"""G02: what an opened product says about itself: place, time, satellite, channel, units."""
from rasters import *

SCS = [321, 322, 323, 324, 321, 322, 0, 19, 20, 21, 18008, 21001, 5, 400]
DAYS = [17849, 0, 1, 58, 59, 60, 365, 730, 789, 790, 15340, 15399, 15400, 15401, 15706, 19722, 19782, 19783, 19784, 21914, 65535]


def case(rng, chan, sc, day, ms):
    p = random_product(rng, chan, lon=rng.choice([0, 0, 9, -3, 57, 180, -180, 140, 9.5, -3.4, 41.5, -0.1, 0.2]), sc=sc, day=day, ms=ms, segs=[1, rng.randint(2, 7)], names=None,
                       cov=random_cov(rng), cols=rng.choice([1, 3, 7]), segl=464,
                       step=rng.choice(["3.0004031", "3.00040316582", "2.98", "1.5"]), stephrv=rng.choice(["1.0001343", "1.00013434887", "0.99"]),
                       lstep=rng.choice([None, None, "3.0004031", "3.1"]), lstephrv=rng.choice([None, None, "1.0001343", "1.02"]),
                       p1=rng.choice(["MSG1", "MSG2_RSS", "MSG1_IODC_XY"]), res=rng.choice(["H", "L"]),
                       slope=rng.choice(["0.02", "0.0205034602", "0.5", "1"]), ofs=rng.choice(["-1", "-1.0456622", "0", "-51"]))
    ops = [p, open_(0, p, form=rng.choice(["short", "seg"])), {"op": "info", "ds": 0}]
    n = 1
    for w in ["jday", "cos_sol_za", "sat_za", "reflectance"]:
        if w == "reflectance" and chan not in (1, 2, 3, 12):
            continue
        if rng.random() < .4:
            ops += [open_(n, p, compute=w), {"op": "info", "ds": n}]
            n += 1
    if rng.random() < .3:
        ops += [{"op": "calib", "ds": n, "src": 0}, {"op": "info", "ds": n}]
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("ClockMC", c.pick("ClockMC.cfg", "ClockMCall.cfg"), "calendar walked day by day: the civil date of every day follows the one before", workers=2)
    walk = r.emitted
    rng = c.rng
    cases = []
    for k in range(c.pick(700, 6000)):
        chan = 1 + k % 12
        sc = SCS[(k // 12) % len(SCS)]
        if k % 3 == 0:
            day = rng.choice(DAYS)
        elif k % 3 == 1:
            day = rng.choice(walk)
        else:
            day = rng.randint(0, 65535)
        ms = rng.choice([0, 59999, 60000, 86399999, 3600000 * rng.randrange(24), rng.randrange(86400000), 900000 * rng.randrange(96)])
        cases.append(case(rng, chan, sc, day, ms))
    c.conform("d_gdal", "RasterTrace", cases, name="info", shards=8)
