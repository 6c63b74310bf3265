"""G05: reflectances, sun and satellite angles, day of the year."""
from rasters import *

DAYS = [17849, 0, 58, 59, 730, 789, 790, 15340, 15399, 15400, 15705, 15706, 19783]


def spot(rng, top, segl, segs, anywhere):
    """a place of the image: anywhere, at the rim of the disc, in the data"""
    r = rng.random()
    h = top / 2
    if anywhere and r < .3:
        import math
        a = rng.random() * 2 * math.pi
        d = rng.choice([rng.random(), .97, 1.0, 1.003]) * h * (5433 / 5568)
        return int(h + d * math.cos(a)), int(h + d * math.sin(a))
    if anywhere and r < .4:
        return rng.choice([0, top - 1, top // 2]), rng.choice([0, top - 1, top // 2])
    if anywhere and r < .6:
        return rng.randrange(top), rng.randrange(top)
    s = rng.choice(segs)
    return rng.randrange(top), max(0, top - (s - 1) * segl - rng.randint(1, segl))


def cos_sun(day, ms, lon0, top, x, y):
    """roughly, where the generator looks for low suns (None off the disc)"""
    import math
    st = 3000.4031 * 3712 / top
    ax, ay = (x - top / 2) * st / 35785831, (top / 2 - y) * st / 35785831
    H, q = 42164.0, 1.006803
    c = math.cos(ax) * math.cos(ay)
    k = math.cos(ay) ** 2 + q * math.sin(ay) ** 2
    d = (H * c) ** 2 - k * 1737121856.0
    if d < 0:
        return None
    sn = (H * c - math.sqrt(d)) / k
    s1, s2, s3 = H - sn * c, sn * math.sin(ax) * math.cos(ay), sn * math.sin(ay)
    la, lo = math.atan(q * s3 / math.hypot(s1, s2)), math.degrees(math.atan2(s2, s1)) + lon0
    n = day % 365.25
    de = math.radians(-23.44) * math.cos(2 * math.pi * (n + 10) / 365.25)
    ha = math.radians(15 * (ms / 3600000 - 12) + lo)
    return math.sin(la) * math.sin(de) + math.cos(la) * math.cos(de) * math.cos(ha)


def twilight(rng, chan):
    """reflectances where the sun is just above or below its lower bound of 10 degrees"""
    top = full(chan)
    while True:
        s = rng.randint(1, -(-top // 464))
        day, ms, lon = rng.choice(DAYS + [rng.randint(0, 30000)]), 900000 * rng.randrange(96), rng.choice([0, 0, 9, 41.5])
        x, y = rng.randrange(2, top - 2), max(0, top - (s - 1) * 464 - rng.randint(1, 464))
        cz = cos_sun(day, ms, lon, top, x, y)
        if cz is not None and .02 < cz < .2:
            break
    common = dict(day=day, ms=ms, lon=lon, cols=top, segs=[s], cov=[1, 8064, 1, 11136, 8065, 11136, 1, 11136])
    if chan == 4:
        a = [product(c, slope=rng.choice(["0.02", "0.1"]), ofs="-1", **common) for c in (4, 9, 11)]
        for q in a:
            q["slope"] = a[0]["slope"]
        return {"ops": a + [open_(0, a[0], suffix="r")] + [read(0, min(top - 3, max(0, x + d)), y, 3, 1) for d in (-1, 40, -30)]}
    p = product(chan, slope=rng.choice(["0.001", "0.003", "0.004"]), ofs=rng.choice(["0.8", "3", "0.4"]), **common)
    return {"ops": [p, open_(0, p, **({"suffix": "r"} if rng.random() < .5 else {"compute": "reflectance"}))] + [read(0, min(top - 3, max(0, x + d)), y, 3, 1) for d in (-1, 40, -30, 90)]}


def case(rng, chan):
    what = rng.choice(["reflectance"] * 3 + ["cos_sol_za", "cos_sol_za", "sat_za", "sat_za", "jday"] if chan in (1, 2, 3, 12) else ["cos_sol_za", "sat_za", "jday"])
    wide = rng.random() < .5
    top = full(chan)
    cols = top if wide else 200
    n = -(-top // 464)
    segs = sorted(rng.sample(range(1, n + 1), 1 if wide else 2))
    common = dict(day=rng.choice(DAYS + [rng.randint(0, 30000)]), ms=900000 * rng.randrange(96) + rng.choice([0, 0, 59999]),
                  lon=rng.choice([0, 0, 0, 9, -3, 57, 41.5, -3.4]), cols=cols, slope=rng.choice(["0.02", "0.3", "1.5"]), ofs=rng.choice(["-1", "-10.4", "0"]),
                  time="20061114%04d" % rng.randrange(2400), segs=segs)
    if chan == 12:
        common["cov"] = [1, 8064, 1, 11136 - 0, 8065, 11136, 1, 11136] if wide else [1, 8064, 3713, 9280, 8065, 11136, 2000, 7567]
    p = product(chan, **common)
    ops = [p]
    if what == "reflectance" and rng.random() < .3:
        ops.append(open_(0, p, suffix="r"))
    elif what == "cos_sol_za" and rng.random() < .4:
        ops.append(open_(0, p, suffix="a"))
    else:
        ops.append(open_(0, p, compute=what))
    ops.append({"op": "info", "ds": 0})
    for _ in range(5 if not wide else 4):
        x, y = spot(rng, top, 464, segs, what != "reflectance" or wide)
        if what == "reflectance" and not wide:
            x = start_of(p, y) + rng.randrange(cols)
        x, y = min(max(0, x), top - 3), min(max(0, y), top - 1)
        ops.append(read(0, x, y, 3, 1))
    return {"ops": ops}


def case39(rng):
    common = dict(day=rng.choice(DAYS), ms=900000 * rng.randrange(96), cols=3712, segs=[rng.randint(1, 8)], slope="0.02", ofs="-1",
                  lon=rng.choice([0, 0, 9]))
    a = [product(c, slope={4: "0.0001", 9: ".2", 11: ".2"}[c], **{k: v for k, v in common.items() if k != "slope"}) for c in (4, 9, 11)]
    # the prologue is shared: one slope for the three, in a range that gives earthly temperatures
    s = rng.choice(["0.005", "0.02", "0.1"])
    for p in a:
        p["slope"] = s
    ops = a + [open_(0, a[0], suffix="r"), {"op": "info", "ds": 0}]
    for _ in range(5):
        x, y = spot(rng, 3712, 464, common["segs"], rng.random() < .2)
        ops.append(read(0, min(max(0, x), 3709), min(max(0, y), 3711), 3, 1))
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    c.model("SkyMC", "SkyMC.cfg", "laws of the sky: angles over days, hours and places", workers=8)
    cases = []
    for k in range(c.pick(330, 3000)):
        cases.append(case(c.rng, [1, 2, 3, 12, 1, 2, 3, 4, 9, 12][k % 10]))
    cases += [case39(c.rng) for _ in range(c.pick(40, 400))]
    cases += [twilight(c.rng, [1, 2, 3, 4, 12][k % 5]) for k in range(c.pick(60, 600))]
    c.conform("d_gdal", "RasterTrace", cases, name="derived", shards=8)
