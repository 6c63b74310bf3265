"""B01: an image written as GRIB reads back the same."""
from gribs import *


def replay(rng, b):
    z = b["start"]
    ps = PX[z["hrv"]]
    o = float(z["ofs"])
    src = mem(0, xs=5, ys=4, nb=1, mod=251, type="UInt16", gt=[repr(o * ps), repr(ps), 0, repr(-(o + .1) * ps), 0, repr(-ps)], srs={"lon": "9.5"},
              scale="0.5", ofs=-7, dt="2006-11-14 12:45:30", jday=318, hour="12.75", scid="55", sc="MSG1", chan=CHANNELS[z["chan"]], chid=str(z["chan"]),
              nchan=z["chan"], md=[["MSAT_DATETIME", "2006-11-14 12:45:30"], ["MSAT_SPACECRAFTID", "55"], ["MSAT_SPACECRAFT", "MSG1"]],
              bmd=[["MSAT_CHANNEL", CHANNELS[z["chan"]]], ["MSAT_CHANNELID", str(z["chan"])]])
    if z["nodata"]:
        src["nodata"] = z["nodata"][0]
    ops, cur = [src], 0
    for k, a in enumerate(b["hist"]):
        n = k + 1
        if a["act"] == "write":
            ops.append(write(cur, n, a["tpl"]))
        else:
            ops.append(xlate({"srcwin": a["srcwin"]}, (cur, n)))
        # not known here whether it was refused, or changed nothing
        ops += [{"op": "info", "ds": n, "maybe": cur}, {"op": "read", "ds": n, "maybe": cur, "all": True}]
        if k + 1 < len(b["hist"]):
            ops.append({"op": "alias", "ds": n, "src": cur})
        cur = n
    return {"ops": ops}


def image_case(rng):
    """written in the three manners, read back at once and later, after others were written over or next to it"""
    ops = [image(rng, 0), image(rng, 1)]
    n = 10
    files = []
    for k in range(rng.choice([1, 2, 3])):
        t = rng.choice(TPL + [None])
        f = rng.choice(["a.grib", "b.grib"])
        src = rng.choice([0, 0, 1])
        ops += [write(src, n, t, f), {"op": "info", "ds": n, "maybe": src}, {"op": "read", "ds": n, "maybe": src, "all": True}]
        files.append((n, src))
        n += 1
    for d, src in files:
        if rng.random() < .5:
            ops.append({"op": "read", "ds": d, "maybe": src, "all": True})
    f = ops[-1].get("file")
    for f in {o["file"] for o in ops if o["op"] == "copy"}:
        if rng.random() < .7:
            ops += [{"op": "reopen", "ds": n, "file": f, "name": codes(f)}, ]
            n += 1
    ops = [o for o in ops if o["op"] != "reopen"]
    # what is in the files now
    for f in ("a.grib", "b.grib"):
        last = [o for o in ops if o.get("file") == f]
        if last:
            w = rng.choice([None, None, "jday", "sat_za", "cos_sol_za"])
            ops += [reopen(n, f, w), {"op": "info", "ds": n, "maybe": 0}, {"op": "read", "ds": n, "maybe": 0, "all": True}]
            n += 1
    return {"ops": ops}


def product_case(rng):
    """a crop of a product, as the tools make it"""
    chan = rng.choice([1, 2, 3, 9, 5, 4, 12])
    p = random_product(rng, chan, cols=40, segs=[1, 2, 3, 24] if chan == 12 else [1, 2, 3], sc=rng.choice(SATS),
                       step="3.00040307617188", stephrv="1.00013433837891", day=rng.choice([17849, 15340, 20000]), ms=rng.choice([43200000, 0, 86340000]))
    w = rng.choice([None, None, None, "jday", "sat_za"])
    ops = [p, open_(0, p, compute=w)]
    n = 1
    for _ in range(2):
        y = interesting_line(rng, p)
        st = start_of(p, y)
        w, h = rng.randint(1, 12), rng.randint(1, 4)
        x = min(max(0, st + rng.randint(-4, 30)), full(chan) - w)
        y = min(y, full(chan) - h)
        ops.append(xlate({"srcwin": [x, y, w, h]}, (0, n)))
        if rng.random() < .3:
            ops.append({"op": "calib", "src": n, "ds": n + 1})
            n += 1
        f = "p%d.grib" % n
        ops += [write(n, n + 1, rng.choice(TPL), f), {"op": "info", "ds": n + 1, "maybe": n}, {"op": "read", "ds": n + 1, "maybe": n, "all": True}]
        n += 2
    return {"ops": ops}


def derived_case(rng):
    """reflectance and angles of what a GRIB file holds"""
    chan = rng.choice([1, 2, 3, 12, 9])
    ops = [image(rng, 0, chan=chan, exact=True, nodata=None, flat=None, type="UInt16", mod=rng.choice([251, 1021]), nb=1,
                 when=(2006, rng.randint(1, 12), rng.randint(1, 28), rng.choice([6, 9, 12, 12, 15]), rng.choice([0, 15, 45])))]
    ops[0]["dt"] = ops[0]["dt"][:-2] + "00"
    ops[0]["md"][0][1] = ops[0]["dt"]
    ops += [write(0, 1, rng.choice(TPL), "d.grib")]
    n = 2
    for w in rng.sample(["reflectance", "sat_za", "cos_sol_za", "jday", "nosuch"], 2):
        ops += [reopen(n, "d.grib", w), {"op": "info", "ds": n, "maybe": 1}, {"op": "read", "ds": n, "maybe": 1, "all": True}]
        n += 1
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("GribMC", c.pick("GribMC3.cfg", "GribMC4.cfg"), "images written, cropped and written again", workers=8)
    beh = r.emitted
    c.rng.shuffle(beh)
    cases = [replay(c.rng, b) for b in beh[:c.pick(500, 8000)]]
    cases += [image_case(c.rng) for _ in range(c.pick(300, 4000))]
    cases += [product_case(c.rng) for _ in range(c.pick(100, 1500))]
    cases += [derived_case(c.rng) for _ in range(c.pick(150, 2000))]
    c.conform("d_gdal", "RasterTrace", cases, name="grib", shards=8)
