"""X06: data fields of HRIT files."""
from hrits import *


def sized(rng, want):
    """sizes around the one wanted"""
    return max(0, want + rng.choice([0, 0, 0, -1, 1, -2, 100, -100, 10 ** 4]))


def one(rng, big):
    kind = rng.choice([0, 0, 0, 1, 2, 3, 128, 128, 129, 130, 131, 144, rng.randrange(256)])
    recs, patch = [], []
    if kind == 0:
        cols, lines, compr = rng.choice([1, 3, 10, 100]), rng.choice([0, 1, 2, 7]), rng.choice([0, 0, 1, 2])
        if rng.random() < .93:
            recs.append(rec(1, [10] + B2(cols) + B2(lines) + [compr]))
        if rng.random() < .93:
            recs.append(rec(128, B2(321) + [rng.randrange(13)] + B2(1) + B2(1) + B2(8) + [rng.choice([1, 2, 3, 3, 0, 4])]))
        n = sized(rng, 2 * cols * lines)
    elif kind == 3:
        n = sized(rng, 197 * rng.choice([0, 1, 2, 3, 5]))
        n = rng.choice([n, n, n, 197 * 65537]) if big else n
    elif kind in (128, 129):
        pro = kind == 128
        foreign = rng.random() < .5
        p1 = rng.choice(["GOES11", "MTSAT1R", "GMS5", "NOAA17", "METOP1", "MET7", "OTHER"]) if foreign else rng.choice(["MSG2", "xMSGx", "GMS_MSG"])
        if rng.random() < .95:
            recs.append(rec(4, annotation(rng, p1)))
        if foreign:
            n = rng.choice([0, 45, 46, 53, 54, 60, 100, 200])
            if n > 53 and rng.random() < .95:
                patch = [{"at": 46, "is": [1] + B2(1) + [2] + B4(max(0, rng.choice([8, 7, n - 46, n - 45, 9, 0, 20])))}]
        else:
            n = sized(rng, PROLOGUE if pro else EPILOGUE)
            if rng.random() < .1:
                n = rng.choice([0, 1, 100])
    else:
        if rng.random() < .9:
            recs.append(rec(4, annotation(rng)))
        n = rng.choice([0, 0, 1, 2, 50, 300])
    rng.shuffle(recs)
    have = n if rng.random() < .75 else max(0, n + rng.choice([-1, 1, -n, 5, -7, -8]))
    d = pattern(rng, have, patch)
    bits = rng.choice([None] * 8 + [n * 8 + rng.randrange(8), rng.getrandbits(64), 1 << 63, 0, (1 << 32) + 8 * n, (1 << 35) + 8 * n])
    h = header(kind, recs, n, bits)
    if rng.random() < .1:
        h = mutate(rng, h)
        if 47 in h:
            # (the annotation names a file: no directories)
            h = [46 if b == 47 else b for b in h]
    return {"op": "fread", "head": h, "d": d, "print": 1}


def run(c):
    c.build("d_hrit")
    rng = c.rng
    cases = []
    r = c.model("HritDataMC", "HritDataMC.cfg", "data fields of every type, of every size around those it must have", workers=4)
    for b in r.emitted:
        cases.append({"ops": [{"op": "fread", "head": b["head"], "d": b["d"], "print": 1}]})
    for k in range(c.pick(1500, 20000)):
        cases.append({"ops": [one(rng, k % 50 == 0) for _ in range(rng.choice([1, 1, 3]))]})
    c.conform("d_hrit", "HritTrace", cases, name="data", shards=8)
