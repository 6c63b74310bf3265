"""N01: native files are read whole, or refused."""
from natives import *


def queries(rng, chans):
    cs = list(chans) + [rng.randrange(12), rng.choice([-1, 12, 100, 11])]
    q = [{"op": o, "ch": c} for o in ("ndata", "nlines", "nsize") for c in cs if o != "nlines" or 0 <= c < 12]
    q += [{"op": "npgm", "ch": c} for c in rng.sample(cs, min(2, len(cs)))]
    q += [{"op": "ntext"}]
    if len(q) > 14:
        q = rng.sample(q, 14)
    return q


def run(c):
    c.build("d_native")
    rng = c.rng
    r = c.model("LayoutMC", "LayoutMCnative.cfg", "a walk over every field of the native header and trailer, and of packet and line headers", workers=4)
    tops = {t: [b["path"] for b in r.emitted if b["top"] == t] for t in ("NativeHeader", "Epilogue")}
    r = c.model("NativeMC", "NativeMC.cfg", "files of all small shapes, and one reader used again and again", workers=8)
    shapes = [b for b in r.emitted if "shape" in b]
    sessions = [b for b in r.emitted if "ops" in b]
    cases = []
    for b in rng.sample(shapes, min(len(shapes), c.pick(350, 4000))):
        cs = b["shape"]["bands"]
        ops = [{"op": "nopen", "d": b["d"]}, {"op": "nread"}] + [{"op": o, "ch": k} for k in cs for o in ("nsize", "ndata", "nlines", "npgm")] + [{"op": "ndata", "ch": 1}, {"op": "nsize", "ch": 11}]
        cases.append({"ops": ops})
    for b in rng.sample(sessions, min(len(sessions), c.pick(120, 2000))):
        ops = []
        for o in b["ops"]:
            ops.append(o)
            if o["op"] != "nopen":
                ops += [{"op": "ndata", "ch": 8}, {"op": "nlines", "ch": 8}, {"op": "nsize", "ch": 11}]
        cases.append({"ops": ops})
    for k in range(c.pick(250, 4000)):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            d, chans = native(rng, rng.choice([0, 0, .3, 1]))
            ops += [{"op": "nopen", "d": d}, {"op": "nread"}] + queries(rng, chans)
            if rng.random() < .3:
                ops.append({"op": "nprint"})
            if rng.random() < .4:
                ops += [{"op": o, "paths": rng.sample(tops[t], 30)} for o, t in (("nheader", "NativeHeader"), ("ntrailer", "Epilogue"))]
            ops.append({"op": "nclose"})
            ops += rng.sample([{"op": "ndata", "ch": 8}, {"op": "nmissing"}, {"op": "nread"}, {"op": "nsize", "ch": 3}], 2)
        cases.append({"ops": ops})
    # every field of the header and the trailer
    for k in range(c.pick(4, 40)):
        d, chans = native(rng)
        hs, ts = list(tops["NativeHeader"]), list(tops["Epilogue"])
        cases.append({"ops": [{"op": "nopen", "d": d}, {"op": "nread"}]
                      + [{"op": "nheader", "paths": hs[j:j + 100]} for j in range(0, len(hs), 100)]
                      + [{"op": "ntrailer", "paths": ts[j:j + 100]} for j in range(0, len(ts), 100)]})
    rng.shuffle(cases)
    c.conform("d_native", "NativeTrace", cases, name="native", shards=8)
