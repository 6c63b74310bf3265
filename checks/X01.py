"""X01: product names."""
from vp import codes


def name_ops(n):
    return {"ops": [{"op": "valid", "name": n}, {"op": "parse", "name": n}, {"op": "complete", "name": n},
                    {"op": "other", "name": n, "chan": codes("HRV")}]}


def realistic(rng):
    def word(k, alpha="ABHLMSGI_0123489"):
        return "".join(rng.choice(alpha) for _ in range(rng.randint(0, k)))
    d = rng.choice(["", "/", "./", "a/", "/a/b/", "a:b/", "a-b/", "../x-C_/", "a:b:c:d/", "/d-d-d-d-d-d-d/"])
    form = rng.random()
    if form < .4:
        parts = [word(3), word(6), word(9), rng.choice(["200611141200", word(6), "2006:11", "12-C_", ""])]
        k = rng.choice([4, 4, 4, 4, 3, 2, 5])
        parts = (parts + [word(2)])[:k]
        return d + ":".join(parts)
    if form < .85:
        f = [word(2), "%03d" % rng.randint(0, 999), word(6).ljust(6, "_"), word(12).ljust(12, "_"),
             word(9).ljust(9, "_"), ("%06d" % rng.randint(0, 30)).ljust(9, "_"), rng.choice(["200611141200", word(5), "20061114____"])]
        for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
            if rng.random() < .5 and len(f) > 1:
                del f[rng.randrange(len(f))]
            else:
                f.insert(rng.randrange(len(f)), word(3))
        if rng.random() < .2:
            f[rng.randrange(len(f))] = ""
        return d + "-".join(f) + rng.choice(["-C_"] * 6 + ["-__", "-C", "_C_", ""])
    return d + "".join(rng.choice(":-_/HC._ %") for _ in range(rng.randint(0, 16)))


def run(c):
    c.build("d_xrit")
    r = c.model("XritNamesMC", c.pick("XritNamesMC.cfg", "XritNamesMC5.cfg"),
                "every name of up to N tokens; both written forms of every product read back", workers=4)
    cases = [name_ops(n) for n in r.emitted]
    rng = c.rng
    for _ in range(c.pick(3000, 40000)):
        cases.append(name_ops(codes(realistic(rng))))
    # one case per 50 names: names do not interact, and neither must their parsing
    big = []
    for k in range(0, len(cases), 25):
        big.append({"ops": [o for x in cases[k:k + 25] for o in x["ops"]]})
    c.conform("d_xrit", "XritNamesTrace", big, name="names", shards=8)
