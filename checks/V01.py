"""V01: xritdump tells the structure of a product and pictures it."""
import viewers


def run(c):
    c.build("d_view", "t_xritdump")
    env = {"T_xritdump": c.drivers["t_xritdump"]}
    rng = c.rng
    c.model("ViewersMC", "ViewersMC.cfg", "small products: the whole and its segments are the same samples", workers=8)
    cases = []
    for k in range(c.pick(260, 4000)):
        ops = []
        for _ in range(2):
            p = viewers.product(rng, wide=k % 4 == 0, odd=.12)
            if rng.random() < .03:
                p["nopro"] = True
            ops += [p, viewers.dump(rng, p)]
        cases.append({"ops": ops})
    c.conform("d_view", "ViewersTrace", cases, name="dumps", shards=8, env=env)
