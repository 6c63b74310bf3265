"""T01: ini files: what is read of them, kept and saved."""
import inis


def run(c):
    c.build("d_ini")
    c.model("IniMC", c.pick("IniMC.cfg", "IniMC6.cfg"), "all texts of a few characters: what is read, and what comes back after saving", workers=8)
    rng = c.rng
    cases = []
    for _ in range(c.pick(3000, 30000)):
        t = "".join(rng.choice(inis.ALPHA) for _ in range(rng.randint(3, 14)))
        if inis.sane(t):
            cases.append([{"op": "read", "text": inis.cs(t)}, {"op": "dump"}, {"op": "sections"}, {"op": "reload"}, {"op": "dump"}] if rng.random() < .6 else inis.dict_case(rng, t))
    for _ in range(c.pick(2500, 25000)):
        t = inis.ini(rng, rng.choice([1, 3, 5, 8, 15]))
        if inis.sane(t):
            cases.append(inis.dict_case(rng, t))
    for n in range(20, 1000, 70):
        cases.append(inis.dict_case(rng, "[s]\n" + "k" * n + " = " + "v" * (1000 - n) + "\nx = 1\n"))
    big = [{"ops": sum(cases[k:k + 6], [])} for k in range(0, len(cases), 6)]
    big += [{"ops": inis.big_case(rng)} for _ in range(c.pick(12, 80))]
    big += [{"ops": inis.full_case(rng)} for _ in range(c.pick(25, 200))]
    big += [{"ops": inis.pair_case(rng)} for _ in range(c.pick(60, 400))]
    c.conform("d_ini", "IniTrace", big, name="ini", shards=8, per_case=20)
