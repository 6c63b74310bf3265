"""X07: prologue and epilogue, field by field."""
from hrits import *

GT_AT = [60134 + 700 + 12, 60134 + 700 + 27]     # the two texts in the prologue that are dates


def message(rng, pro, d):
    return {"op": "fread", "head": header(128 if pro else 129, [rec(4, annotation(rng, "MSG2"))], d["n"]), "d": d, "print": 1}


def date(rng):
    return codes("%04d%02d%02d%02d%02d%02dZ" % (rng.randint(1900, 2099), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))


def run(c):
    c.build("d_hrit")
    rng = c.rng
    r = c.model("LayoutMC", "LayoutMC.cfg", "a walk over every field of prologue and epilogue", workers=4)
    tops = {t: [b["path"] for b in r.emitted if b["top"] == t] for t in ("Prologue", "Epilogue")}
    # the last index of every dimension
    last = {}
    for t, ps in tops.items():
        for p in ps:
            key = (t, tuple(s["f"] for s in p))
            have = [i for s in p for i in s["i"]]
            last[key] = [max(a, b) for a, b in zip(last.get(key, have), have)]
    cases = []
    for k in range(c.pick(24, 200)):
        pro = k % 2 == 0
        top = "Prologue" if pro else "Epilogue"
        d = pattern(rng, PROLOGUE if pro else EPILOGUE)
        d["a"], d["b"] = [(1, 1), (3, 5), (7, 13), (251, 100), (11, 37), (127, 3)][k // 2 % 6]
        if pro:
            d["patch"] = [{"at": a, "is": date(rng)} for a in GT_AT]
        paths = list(tops[top])
        for _ in range(c.pick(400, 2000)):
            p = rng.choice(tops[top])
            lim = list(last[(top, tuple(s["f"] for s in p))])
            paths.append([{"f": s["f"], "i": [rng.randint(0, lim.pop(0)) for _ in s["i"]]} for s in p])
        rng.shuffle(paths)
        cases.append({"ops": [message(rng, pro, d)] + [{"op": "fields", "paths": paths[j:j + 100]} for j in range(0, len(paths), 100)]})
    c.conform("d_hrit", "HritTrace", cases, name="fields", shards=8)
