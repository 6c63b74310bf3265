"""F01: satellite and channel codes."""
from vp import codes

NAMES = ["METOP1", "METOP2", "METOP3", "METEOSAT3", "METEOSAT4", "METEOSAT5", "METEOSAT6", "METEOSAT7", "MSG1", "MSG2", "MSG3", "MSG4", "MTSAT1", "MTSAT2",
         "GMS3", "GMS4", "GMS5", "NOAA12", "NOAA14", "NOAA15", "GOES7", "GOES8", "GOES9", "GOES10", "GOES11", "GOES12", "GOMS1", "GOMS2"]


def run(c):
    c.build("d_facts")
    r = c.model("CodesMC", "CodesMC.cfg", "every satellite written and read back in its three forms", workers=4)
    rng = c.rng
    ops = []
    for b in r.emitted:
        ops.append({"op": "satname", "name": b["val"]} if b["form"] == "name" else {"op": "sat", "id": b["val"]})
    ids = list(range(-2, 1100)) + list(range(16990, 17030)) + list(range(17990, 18030)) + list(range(18990, 19010)) + list(range(19995, 20015)) + list(range(20990, 21010)) + [-1, 1 << 16, (1 << 31) - 1]
    ops += [{"op": "sat", "id": k} for k in ids]
    for n in NAMES:
        ops += [{"op": "satname", "name": x} for x in (n, n.lower(), n + "_", n[:-1], " " + n)]
    ops += [{"op": "satname", "name": x} for x in ("", "Non Spacecraft", "unknown", "MSG", "MSG0", "MSG5", "MTP1")]
    sats = [-1, 0, 3, 54, 55, 56, 57, 58, 59, 69, 70, 71, 321, 322, 323, 324, 1023]
    for s in sats:
        for ch in range(-1, 15):
            ops += [{"op": "chan", "sat": s, "chan": ch}, {"op": "wave", "sat": s, "chan": ch}]
        for w in range(0, 160):
            ops.append({"op": "ofwave", "sat": s, "w": "%r" % (w / 10)})
    for s in [0, 11, 12, 13, 14, 16, 19, 21, 150, 151, 320, 321, 322, 323, 324, 325, 17011, 17012, 17013, 17014, 17015, 17016, 18006, 18007, 18008, 18009, 18010, 18011, 18012, 18013,
              19000, 19001, 19002, 19003, 19004, 20003, 20004, 20005, 20006, 20007, 21001, 21002, 21003]:
        for ch in range(0, 16):
            ops.append({"op": "label", "sat": s, "chan": ch})
    for _ in range(c.pick(1500, 20000)):
        s = rng.choice([55, 56, 57, 70])
        w = rng.choice([.6, .8, 1.6, 3.9, 6.2, 7.3, 8.7, 9.7, 10.8, 12., 13.4, .7]) + rng.choice([0, rng.uniform(-.06, .06), rng.uniform(-1, 1)])
        w = max(w, .01)
        ops.append(rng.choice([{"op": "ofwave", "sat": s, "w": repr(w)}, {"op": "ofnumber", "sat": s, "w": repr(1e6 / w)}]))
        ops.append({"op": "sat", "id": rng.randrange(-5, 25000)})
    rng.shuffle(ops)
    c.conform("d_facts", "FactsTrace", [{"ops": ops[k:k + 25]} for k in range(0, len(ops), 25)], name="codes", shards=8)
