"""X03: assembling an image from its segments, over any history of reads."""


def product(hrv=False, cols=5, segl=464, end=None, seqs=(), cfac=-13642337, cov=None, bpp=10, names=None, broken=False):
    if end is None:
        end = 24 if hrv else 8
    segs = [{"seq": s, "file": (names[k] if names else s)} for k, s in enumerate(seqs)]
    return {"op": "product", "hrv": hrv, "cols": cols, "segl": segl, "end": end, "segs": segs, "cfac": cfac,
            "lfac": -13642337, "bpp": bpp, "broken": broken,
            "cov": cov or [1, 8000, 100, 5568 + 99, 8001, 11136, 2000, 2000 + 5567]}


def random_case(rng, nreads):
    hrv = rng.random() < .4
    segl = rng.choice([464, 464, 464, 232, 100, 465])
    top = 11136 if hrv else 3712
    n = -(-top // segl)
    seqs = [s for s in range(1, n + 1) if rng.random() < rng.choice([1, .95, .6, .2])] or [rng.randint(1, n)]
    names = list(seqs)
    if rng.random() < .4:
        rng.shuffle(names)
    if rng.random() < .1:
        seqs.append(0)
        names.append(99)
    if hrv:
        ln = rng.choice([8064, rng.randint(1, 11136), 11136])
        ls = rng.choice([1, rng.randint(1, ln)])
        # the upper window, if any, is north of the lower one (rapid scans have one only)
        us, un = ln + rng.choice([1, 1, rng.randint(1, 3000)]), 0
        un = rng.choice([11136, rng.randint(min(us, 11136), 11136)])
        if us > un or rng.random() < .2:
            us = un = 0
        lw, uw = rng.randint(5568, 11136), rng.randint(5568, 11136)
        cov = [ls, ln, max(1, lw - 5567), lw, us, un, max(1, uw - 5567), uw]
    else:
        cov = None
    p = product(hrv, rng.choice([1, 2, 5, 9]), segl, n, seqs, rng.choice([-13642337, 13642337]), cov, rng.choice([10, 10, 8]), names)
    ops = [p]
    seg = rng.randint(0, n - 1)
    mode = rng.random()
    for k in range(nreads):
        if mode < .3:
            l = rng.randrange(top)
        elif mode < .6:   # alternate among a few segments
            l = min(top - 1, rng.choice([seg, seg, (seg + 1) % n, (seg + 2) % n]) * segl + rng.choice([0, 1, segl - 1, rng.randrange(segl)]))
        else:
            base = rng.choice([0, segl, top - 1, top // 2, rng.randrange(top)])
            l = min(top - 1, max(0, base + rng.randint(-2, 2)))
        ops.append({"op": "line", "n": l})
    if hrv and rng.random() < .5:
        edges = sorted({max(0, min(top - 4, top - e + d)) for e in cov for d in (-3,)} | {0, top - 4})
        for e in edges:
            ops.append({"op": "runs", "first": e, "last": e + 4})
    return {"ops": ops}


def run(c):
    c.build("d_xrit")
    r = c.model("SegAccessMC", c.pick("SegAccessMC.cfg", "SegAccessMC5.cfg"),
                "every history of reads of first/last lines of segments, over sets of present segments", workers=4)
    beh = r.emitted
    c.rng.shuffle(beh)
    cases = []
    for k, b in enumerate(beh[:c.pick(2500, 30000)]):
        cf = -1 if k % 2 else 1
        ops = [product(seqs=sorted(b["present"]), cfac=cf, segl=464)]
        # segment s holds file lines (s-1)*464 .. s*464-1, the southernmost first
        ops += [{"op": "line", "n": 3711 - ((s - 1) * 464 + (463 if w else 0))} for s, w in b["hist"]]
        cases.append({"ops": ops})
    for _ in range(c.pick(500, 6000)):
        cases.append(random_case(c.rng, 14))
    # whole images, in order and backwards: each segment is decoded once
    for hrv, step in ((False, 1), (True, 3)):
        top = 11136 if hrv else 3712
        for rev in (False, True):
            for cf in (-1, 1):
                seq = list(range(1, top // 464 + 1))
                ns = list(range(0, top, step))
                cases.append({"ops": [product(hrv, 2, 464, None, seq, cf)] + [{"op": "line", "n": n} for n in (reversed(ns) if rev else ns)]})
    # nothing to read
    cases.append({"ops": [product(seqs=[])]})
    cases.append({"ops": [product(seqs=[0], names=[1])]})
    c.conform("d_xrit", "SegAccessTrace", cases, name="segments", shards=8)
