"""U04: terminal colours and reports of progress."""
COLOURS = list(range(9)) + list(range(16, 25))


def words(rng, escapes=False):
    return [rng.choice([65, 97, 32, 46, 59, 109, 91, 48, 49, 255]) for _ in range(rng.choice([0, 1, 3, 10]))]


def session(rng):
    ops = []
    for _ in range(rng.randint(3, 25)):
        k = rng.choice(["handler", "activity", "activity", "push", "pop", "task", "task", "end", "report", "report"])
        o = {"op": k}
        if k == "handler":
            o["h"] = rng.choice([0, 1, 1, 2])
        elif k not in ("pop", "end"):
            o["s"] = words(rng)
        if k in ("activity", "report"):
            o["perc"], o["tot"] = rng.choice([-1, 0, 1, 50, 100, -2, 123456]), rng.choice([-1, -1, 0, 1, 100, 2000000000])
        ops.append(o)
    return {"ops": [{"op": "handler", "h": 1}] * (rng.random() < .8) + ops}


def run(c):
    c.build("d_term")
    rng = c.rng
    c.model("TermMC", "TermMC.cfg", "every pair of colours on short texts, one text after the other", workers=4)
    ops = [{"op": "colour", "how": how, "fg": f, "bg": b, "tty": t, "s": words(rng)} for how in ("both", "fg", "bg") for f in COLOURS for b in COLOURS for t in (1, 0, 2)]
    c.conform("d_term", "TermTrace", [{"ops": ops[k:k + 40]} for k in range(0, len(ops), 40)], name="colours", shards=8, per_case=20)
    c.conform("d_term", "TermTrace", [session(rng) for _ in range(c.pick(1500, 20000))], name="progress", shards=8, per_case=20)
