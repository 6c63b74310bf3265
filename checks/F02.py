"""F02: sampling grids."""
def run(c):
    c.build("d_facts")
    r = c.model("GridMC", "GridMC.cfg", "grids converted between their forms, up to 4 times in a row", workers=4)
    rng = c.rng
    FROM = {"disc": ["facofdisc", "sizeofdisc"], "size": ["fac"], "fac": ["size"]}
    ops = []
    for b in r.emitted:
        fs = list(FROM[b["form"]])
        if not str(b["val"]).startswith("-") and b["form"] != "disc":
            fs.append({"size": "disc", "fac": "discoffac"}[b["form"]])
        ops += [{"op": "grid", "f": f, "x": str(b["val"])} for f in fs]
    for d in list(range(3600, 3650)) + list(range(10800, 10900)) + [rng.randrange(200, 20000) for _ in range(c.pick(500, 5000))]:
        ops += [{"op": "grid", "f": f, "x": str(d)} for f in FROM["disc"]]
    N, H = 3000.40307617188, 1000.13433837891
    for _ in range(c.pick(2000, 20000)):
        x = rng.choice([N, H, rng.uniform(100, 9000), 3000, 1000]) + rng.choice([0, 0, .0005, .00095, .00105, .002, 1, 5, rng.uniform(-.005, .005), rng.uniform(-20, 20)])
        if abs(abs(x - N) - .001) < 1e-6 or abs(abs(x - H) - .001) < 1e-6:
            continue
        ops += [{"op": "grid", "f": "disc", "x": repr(x)}, {"op": "grid", "f": "fac", "x": repr(rng.choice([1, 1, -1]) * x)}]
        f = rng.choice([13642337, 40927000, 13642337 + rng.randint(-3, 3), 40927000 + rng.randint(-3, 3), rng.randint(1000000, 60000000)]) / 65536
        f += rng.choice([0, 0, .4 / 65536, -.4 / 65536, .6 / 65536])
        ops += [{"op": "grid", "f": "discoffac", "x": repr(f)}, {"op": "grid", "f": "size", "x": repr(rng.choice([1, 1, -1]) * f)}]
    rng.shuffle(ops)
    c.conform("d_facts", "FactsTrace", [{"ops": ops[k:k + 25]} for k in range(0, len(ops), 25)], name="grids", shards=8)
