"""Generation of GRIB histories."""
from rasters import *

TPL = ["msat/wmo", "msat/ecmwf", "msat/msat"]
PX = {False: 3000.40307617188, True: 1000.13433837891}
SATS_WMO = [55, 56, 57, 70]


def write(src, ds, tpl=None, file=None, drv="MsatGRIB"):
    o = {"op": "copy", "src": src, "ds": ds, "drv": drv, "file": file or "g%d.grib" % ds}
    if tpl:
        o["opts"], o["tpl"] = ["TEMPLATE=" + tpl], tpl
    return o


def reopen(ds, file, compute=None):
    o = {"op": "open", "ds": ds, "name": codes(file), "gfile": file}
    if compute:
        o["opts"], o["compute"] = ["MSAT_COMPUTE=" + compute], compute
    return o


def grid(hrv, ox, oy):
    """geotransform of an image whose corner is ox columns and oy lines from the middle"""
    ps = PX[hrv]
    return [repr(ox * ps), repr(ps), 0, repr(-oy * ps), 0, repr(-ps)]


def image(rng, ds, hrv=None, chan=None, exact=False, **kw):
    """an image that can be written as GRIB"""
    if hrv is None:
        hrv = rng.random() < .3
    half = 5568 if hrv else 1856
    xs, ys = rng.choice([1, 2, 5, 9, 16, 31]), rng.choice([1, 2, 3, 7, 12])
    ox = rng.choice([-half, -half + .3, rng.uniform(-half, half - xs), 0, -3, rng.randint(-half, half)])
    oy = rng.choice([-half, -half - .4 + .7, rng.uniform(-half, half - ys), 0, -2, rng.randint(-half, half)])
    # away from halves of a pixel: which way they go is nobody's promise
    ox, oy = [round(v, 2) + .01 if abs(v % 1 - .5) < .02 else v for v in (ox, oy)]
    chan = chan or rng.randint(1, 12)
    t = rng.choice(["UInt16", "UInt16", "Byte", "Int16", "Float32", "Float64", "Int32"])
    a = dict(when=(rng.choice([2006, 2000, 1999, 2100, 2012, 2001]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 12, 45, 59])),
             chan=chan, sat=rng.choice(SATS_WMO), xs=xs, ys=ys, nb=rng.choice([1, 1, 1, 2]), type=t,
             mod=rng.choice([251, 97, 2]) if t == "Byte" else rng.choice([251, 1021, 4093, 32749]),
             gt=grid(hrv, ox, oy), srs={"lon": rng.choice(["0", "0", "9.5", "-3.4", "41.5", "0.125"])})
    if exact:
        a["scale"], a["ofs"] = rng.choice(["0.5", "0.25", 1]), rng.choice([0, -3, 5])
    elif rng.random() < .8:
        a["scale"], a["ofs"] = rng.choice(["0.0205034602", "0.5", "-0.25", 3, "0.203"]), rng.choice(["-1.0456", "-51.25", 0, 7])
    if rng.random() < .5:
        a["nodata"] = rng.choice([7, 0, 20, 36])
    if rng.random() < .1:
        a["flat"] = rng.choice([7, 36, 11])
    a.update(kw)
    if not exact:
        wild(rng, a)
    o = mem_seen(ds, **{k: v for k, v in a.items() if v is not None})
    if rng.random() < .2 and o["dt"] != "(none)":      # seconds: some messages have no room for them
        o["dt"] = o["dt"][:-2] + "37"
        for m in o["md"]:
            if m[0] == "MSAT_DATETIME":
                m[1] = o["dt"]
    return o


def look(rng, ds, band=None):
    return [{"op": "info", "ds": ds}, {"op": "read", "ds": ds, "all": True}]
