"""X02: the files of a product."""
from vp import codes


def rnd(rng):
    res = rng.choice("HL")
    p1 = rng.choice(["MSG1", "MSG2", "MSG2_RSS", "MET10"])
    p2 = rng.choice(["IR_108", "HRV", "VIS006", "IR_0391", "WV_062", "IR_039"])
    t = rng.choice(["200611141200", "20061114", "201001191215"])

    def name():
        g = lambda a, b, p=.82: a if rng.random() < p else b
        what = rng.choice(["PRO", "EPI", "S", "S", "S", "S"])
        seg = "%s%05d" % (g("0", "1", .93), rng.choice([0, 1, 2, 3, 8, 9, 10, 11, 24, 100, 99999]))
        f = [g(res, rng.choice(["H", "L", "HH", "h"])), g("000", rng.choice(["001", "99", "1234"])),
             g(p1[:6].ljust(6, "_"), rng.choice(["MSG1__", "GOES_", "MSG1___"])), g(p1, rng.choice(["MSG1", "MSG2", "MSG2_RSS"])).ljust(12, "_"),
             (g("", "IR_108", .95) if what != "S" else g(p2, rng.choice(["HRV", "IR_108", "IR_0391", ""]))).ljust(9, "_"),
             (what if what != "S" else seg).ljust(9, "_"), g(t, rng.choice(["200611141200", "20061114", "2006111412001"])),
             g("__", "C_", .95) if what != "S" else g("C_", "__", .95)]
        if rng.random() < .04:
            f.insert(rng.randrange(8), "x")
        if rng.random() < .04:
            del f[rng.randrange(8)]
        n = "-".join(f)
        if rng.random() < .05:
            k = rng.randrange(len(n))
            n = n[:k] + rng.choice("_-0A") + n[k + 1:]
        return n
    files = sorted({name() for _ in range(rng.randint(0, 14))})
    return {"op": "find", "res": codes(res), "p1": codes(p1), "p2": codes(p2), "time": codes(t), "files": [codes(f) for f in files]}


def run(c):
    c.build("d_xrit")
    r = c.model("XritFilesMC", "XritFilesMC.cfg", "every subset of a directory of the product's own files and near misses", workers=4)
    ops = [dict(e, op="find") for e in r.emitted]
    ops += [rnd(c.rng) for _ in range(c.pick(4000, 40000))]
    cases = [{"ops": ops[k:k + 16]} for k in range(0, len(ops), 16)]
    c.conform("d_xrit", "XritNamesTrace", cases, name="files", shards=8)
