"""V02: XRIT2Image and native2Image draw the samples of the files."""
import viewers
from natives import native


def run(c):
    c.build("d_view", "t_XRIT2Image", "t_native2Image", "t_nativedump")
    env = {"T_" + t: c.drivers["t_" + t] for t in ("XRIT2Image", "native2Image", "nativedump")}
    rng = c.rng
    c.model("ViewersMC", "ViewersMC.cfg", "small products: the whole and its segments are the same samples", workers=8)
    cases = []
    for k in range(c.pick(200, 4000)):
        ops = []
        for _ in range(2):
            p = viewers.product(rng, odd=.2)
            while p["cols"] * p["segl"] * p["end"] > 20000:
                p = viewers.product(rng, odd=.2)
            ops += [p, viewers.draw(rng, p, k % 3 == 0)]
        cases.append({"ops": ops})
    for k in range(c.pick(120, 2000)):
        d, chans = native(rng, rng.choice([0, 0, 0, .3, 1]))
        ops = [{"op": "nfile", "d": d}, viewers.ndraw(rng, chans), viewers.ndraw(rng, chans)]
        if rng.random() < .2:
            ops.append({"op": "ndump"})
        cases.append({"ops": ops})
    rng.shuffle(cases)
    c.conform("d_view", "ViewersTrace", cases, name="images", shards=8, env=env, per_case=120)
