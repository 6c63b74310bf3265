"""X05: headers of HRIT files."""
from hrits import *


def fresh(rng):
    recs = [record(rng, broken=.02) for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 9]))]
    if rng.random() < .5:
        recs.insert(0, rec(1, [10] + B2(rng.choice([3, 40])) + B2(rng.choice([0, 1, 2, 3])) + [0]))
    h = header(rng.choice([0, 1, 2, 128, 129, 255]), recs, rng.choice([0, 10, 10 ** 6]), rng.choice([None, None, rng.getrandbits(64)]))
    if rng.random() < .45:
        h = mutate(rng, h)
    return h


def run(c):
    c.build("d_hrit")
    cases = []
    for cfg, what in [("HritMC.cfg", "every file of up to 2 records of each kind, readable and not")] + \
            c.pick([], [("HritMC3.cfg", "every file of up to 3 records")]) + [("HritMCreads.cfg", "one header object reading file after file")]:
        r = c.model("HritMC", cfg, what, workers=4)
        for b in r.emitted:
            cases.append({"ops": [{"op": "hread", "head": f} for f in b["files"]]})
    rng = c.rng
    for _ in range(c.pick(2500, 30000)):
        cases.append({"ops": [{"op": "hread", "head": fresh(rng)} for _ in range(rng.choice([1, 2, 3]))]})
    # every cut of a few rich headers, read by one object that held the whole
    for _ in range(c.pick(6, 60)):
        h = fresh(rng)[:400]
        cases.append({"ops": [{"op": "hread", "head": h}] + [{"op": "hread", "head": h[:k]} for k in range(0, len(h))]})
    c.conform("d_hrit", "HritTrace", cases, name="headers", shards=8)
