"""V03: db1_to_image draws the counts of a channel."""
import inis
from inis import cs


def draw(rng, d, plain=False):
    """a drawing of one of the channels there are, or not"""
    name = d["d"] if rng.random() < .97 else "none"
    chans = [f["n"] for f in d["raws"]] or ["VIS006"]
    ch = rng.choice(chans if plain or rng.random() < .9 else ["VIS006", "HRV", "NONE"])
    fmt = "pgm" if plain or rng.random() < .85 else rng.choice(["png", "gif", "jpg"])
    g = 100 if plain or rng.random() < .7 else rng.choice([50, 200, 300, 10, 150, 75])
    r = {"op": "dbdraw", "d": name, "ch": ch, "codes": cs(ch), "fmt": cs(fmt), "pgm": int(fmt == "pgm"), "g": g, "over": 0, "nowhere": 0,
         "args": ["../db/" + name, ch, fmt, "%g" % (g / 100)]}
    k = 1 if plain else rng.random()
    if k < .1:
        r["over"] = 1
        r["args"].append("../overlay.pgm")
    elif k < .15:
        r["nowhere"] = 1
        r["args"].append("../missing.pgm")
    r["args"] = [cs(a) for a in r["args"]]
    return r


def run(c):
    c.build("d_view", "t_db1_to_image")
    env = {"T_db1_to_image": c.drivers["t_db1_to_image"]}
    rng = c.rng
    c.model("DbViewMC", "DbViewMC.cfg", "every scene of up to 3 x 3 counts scanned either way: the picture is the scene", workers=4)
    cases = []
    for k in range(c.pick(300, 5000)):
        chans = rng.sample(inis.CHANNELS, rng.randint(1, 3))
        d = inis.directory(rng, "d1", chans)
        d["op"] = "dbdir"
        ops = [d, draw(rng, d, k % 3 == 0), draw(rng, d)]
        if rng.random() < .2:
            e = dict(inis.directory(rng, "d2", chans), op="dbdir")
            ops += [e, draw(rng, e), draw(rng, d)]
        cases.append({"ops": ops})
    c.conform("d_view", "DbViewTrace", cases, name="pictures", shards=8, env=env, per_case=120)
