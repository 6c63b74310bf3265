"""G01: pixels are what the files hold, in any history of opening and reading."""
from rasters import *

PAIRS = [(1, 2), (9, 10), (12, 1), (4, 12), (3, 9)]


def replay(rng, hist, pair):
    a = product(pair[0], cols=rng.choice([3, 5]), cfac=rng.choice([-13642337, 13642337]))
    b = product(pair[1], cols=rng.choice([3, 5]), time="200611141215", p1=rng.choice(["MSG1", "MSG2"]))
    prods = {"a": a, "b": b}
    ops = [a, b]
    here = {}
    for h in hist:
        if h[0] == "open":
            here[h[1]] = prods[h[2]]
            ops.append(open_(h[1], prods[h[2]], form=rng.choice(["short", "seg"])))
        elif h[0] in ("close", "flush"):
            ops.append({"op": h[0], "ds": h[1]})
        else:
            p = here[h[1]]
            # two rows to a segment: its first and its last line
            top = full(p["chan"])
            y = top - 1 - ((h[2] // 2) * p["segl"] + (0 if h[2] % 2 == 0 else p["segl"] - 1))
            st = start_of(p, y)
            ops.append(read(h[1], max(0, st - 1), y, p["cols"] + 1, 1))
    return {"ops": ops}


def random_case(rng, n):
    k = rng.choice([1, 1, 2, 3])
    prods, ops = [], []
    for i in range(k):
        # often the same channel again, of another product
        p = random_product(rng, chan=prods[0]["chan"] if prods and rng.random() < .4 else None, dirn="p%d" % i)
        prods.append(p)
        ops.append(p)
    for i, p in enumerate(prods):
        ops.append(open_(i, p, form=rng.choice(["short", "seg"])))
    for _ in range(n):
        i = rng.randrange(k)
        r = rng.random()
        if r < .04:
            ops.append({"op": "flush", "ds": i})
        elif r < .07:
            ops += [{"op": "close", "ds": i}, open_(i, prods[i])]
        else:
            ops.append(random_read(rng, i, prods[i]))
    return {"ops": ops}


def run(c):
    c.build("d_gdal")
    r = c.model("RasterMC", c.pick("RasterMC.cfg", "RasterMC6.cfg"), "every history of open, read, flush and close over two datasets", workers=4)
    beh = r.emitted
    c.rng.shuffle(beh)
    cases = [replay(c.rng, h, PAIRS[k % len(PAIRS)]) for k, h in enumerate(beh[:c.pick(500, 6000)])]
    for _ in range(c.pick(350, 4000)):
        cases.append(random_case(c.rng, 12))
    c.conform("d_gdal", "RasterTrace", cases, name="pixels", shards=8)
