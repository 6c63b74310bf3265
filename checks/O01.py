"""O01: OpenMTP-IDS images are read and written whole, and the tools for them."""
from vp import codes

TOOLS = ("pgm", "sector", "write", "debug")


def u2(v):
    return [v >> 8 & 255, v & 255]


def image(rng, broken=False):
    """the bytes of a file"""
    nrec = rng.choice([0, 1, 1, 2, 3])
    rl = rng.choice([58, 58, 59, 60, 80, 200])
    chans = [rng.choice([0, 1, 2, 3, 8, 12, 12]), rng.choice([0, 6, 7, 6]), rng.choice([0, 4, 5, 4])]
    if rng.random() < .2:
        chans = [rng.choice([0, 1, 4, 5, 6, 7, 9, 13, 300]) for _ in range(3)]
    w = rng.choice([0, 1, 2, 5, 9])
    recs = []
    for k in range(nrec):
        lines = []
        for j in range(rng.choice([0, 1, 2, 3, 4])):
            np = w if rng.random() < .93 else rng.choice([0, 1, 3])
            pad = rng.choice([0, 0, 0, 1, 5])
            ns = [16 + np + pad, rng.choice([j, 65535, 256, 255]), rng.randrange(65536), np,
                  rng.choice([c for c in chans] + [1]) if rng.random() < .95 else rng.randrange(65536), rng.randrange(65536), rng.randrange(65536), rng.randrange(65536)]
            if broken and rng.random() < .1:
                ns[rng.choice([0, 3])] = rng.choice([0, 15, 16, 17, np, 65535, ns[0] - 1, ns[0] + 1])
            lines.append(sum(map(u2, ns), []) + [rng.choice([0, 255, 254, 127, 128, 10, 13, 26, rng.randrange(256)]) for _ in range(np)] + [rng.choice([0, 238]) for _ in range(pad)])
        n = len(lines)
        if broken and rng.random() < .1:
            n = max(0, n + rng.choice([-1, 1, 255]))
        recs.append([rng.randrange(256), rng.randrange(256)] + u2(8) + u2(n) + u2(rng.randrange(65536)) + u2(rng.choice([0, 0, 7])) + sum(lines, []))
    n = nrec + 1
    if broken and rng.random() < .3:
        n = rng.choice([0, 0, n + 1, max(0, n - 1), 65535])
    if broken and rng.random() < .2:
        rl = rng.choice([0, 1, 57, 56, 58])
    h = [n] + [rng.choice([rng.randrange(65536), rng.randrange(3000), 255, 256, 65535]) for _ in range(9)] + [chans[0], chans[1], chans[2]]
    t = [rng.randrange(65536), rl] + [rng.randrange(65536) for _ in range(10)]
    sat = [rng.choice([77, 69, 84, 0, 255, 32]) for _ in range(8)]
    b = [rng.randrange(256), rng.randrange(256)] + sum(map(u2, h), []) + sat + sum(map(u2, t), []) + [rng.choice([0, 7])] * max(0, rl + 2 - 60) + sum(recs, [])
    if broken and rng.random() < .5:
        b = b[:rng.choice([len(b) - 1, len(b) - 2, rng.randrange(len(b)), min(len(b), 60), 59, 2, 0])]
    elif rng.random() < .2:
        b += [1, 2, 3][:rng.randrange(4)]
    return b


def change(rng, slot):
    o = rng.choice(["oset", "oset", "oset", "osat", "orset", "olset", "opx", "oaddrec", "odroprec", "oaddline", "odropline", "oassign"])
    r = {"op": o, "slot": slot}
    v = rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)])
    if o == "oset":
        r.update(i=rng.randrange(1, 26), v=v)
        if r["i"] == 1:
            r["v"] = rng.choice([0, 1, 2, 3, 4])
        if r["i"] == 15:
            r["v"] = rng.choice([0, 58, 60, 100, 57])
    elif o == "osat":
        r["text"] = codes(rng.choice(["", "M", "MET 7", "METEOSAT", "METEO  6", "METEOSAT-7", "GOES-EAST ONE"]))
    elif o in ("orset", "odropline"):
        r["rec"] = rng.randrange(1, 3)
        if o == "orset":
            r.update(i=rng.randrange(1, 5), v=v if rng.random() < .5 else rng.randrange(4))
    elif o in ("olset", "opx", "oaddline"):
        r.update(rec=rng.randrange(1, 3), line=rng.randrange(1, 4))
        if o == "olset":
            r.update(i=rng.randrange(1, 9), v=rng.choice([v, 16, 17, 20, 25, 4, 2]) if True else v)
            if r["i"] == 1:
                r["v"] = rng.choice([0, 16, 18, 30, 200])
        if o == "opx":
            r["px"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 9]))]
    elif o == "oaddrec":
        r["rec"] = rng.randrange(1, 3)
    elif o == "oassign":
        r["from"] = "b" if slot == "a" else "a"
    return r


def all_lines(rng, slot, n, full=False):
    q = [{"op": "olines", "slot": slot, "which": "all"}]
    one = [{"op": "olines", "slot": slot, "which": "one", "from": k} for k in list(range(n + 2)) + [2147483646]]
    two = [{"op": "olines", "slot": slot, "which": "range", "from": a, "to": b} for a in range(n + 2) for b in list(range(n + 3)) + [1000000]]
    return q + (one + two if full else rng.sample(one, 2) + rng.sample(two, min(len(two), 5)))


def run(c):
    c.build("d_omtp", *["t_omtp_" + t for t in TOOLS])
    env = {"T_" + t: c.drivers["t_omtp_" + t] for t in TOOLS}
    rng = c.rng
    r = c.model("OmtpMC", c.pick("OmtpMC.cfg", "OmtpMC4.cfg"), "all small images and their files, and sessions with two images", workers=8)
    shapes = [b for b in r.emitted if "shape" in b]
    sessions = [b for b in r.emitted if "ops" in b]
    cases = []
    for b in rng.sample(shapes, min(len(shapes), c.pick(250, 1000))):
        cases.append({"ops": [{"op": "oput", "file": "f", "bytes": b["bytes"]}, {"op": "oread", "slot": "a", "file": "f"}, {"op": "odump", "slot": "a"},
                              {"op": "owrite", "slot": "a", "file": "g"}, {"op": "ofile", "file": "g"}] + all_lines(rng, "a", b["n"], True)})
    for b in rng.sample(sessions, min(len(sessions), c.pick(500, 8000))):
        ops = []
        for o in b["ops"]:
            if o["op"] == "put":
                ops += [{"op": "oput", "file": "h", "bytes": o["bytes"]}, {"op": "oread", "slot": o["slot"], "file": "h"}]
            else:
                ops.append(o)
            ops += [{"op": "odump", "slot": s} for s in "ab"]
            if o["op"] == "owrite":
                ops.append({"op": "ofile", "file": "f"})
        cases.append({"ops": ops})
    # every byte of a file missing at the end
    for k in range(c.pick(6, 60)):
        b = image(rng)
        for n in list(range(0, len(b), c.pick(3, 1))) + [len(b) - 1]:
            cases.append({"ops": [{"op": "oput", "file": "f", "bytes": b[:n]}, {"op": "oread", "slot": "a", "file": "f"}]})
    for k in range(c.pick(500, 8000)):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice("ab")
            ops += [{"op": "oput", "file": "f", "bytes": image(rng, rng.random() < .4)}, {"op": "oread", "slot": s, "file": "f"}, {"op": "odump", "slot": s}]
            ops += all_lines(rng, s, rng.randrange(5))
            for _ in range(rng.randrange(4)):
                ops += [change(rng, rng.choice("ab"))]
            ops += [{"op": "odump", "slot": x} for x in "ab"]
            ops += [{"op": "owrite", "slot": s, "file": "g"}, {"op": "ofile", "file": "g"}, {"op": "oread", "slot": "b", "file": "g"}, {"op": "odump", "slot": "b"}]
            if rng.random() < .2:
                ops += [{"op": "ofull", "slot": s}]
            if rng.random() < .2:
                ops += [{"op": "oreadnone", "slot": s}]
        cases.append({"ops": ops})
    rng.shuffle(cases)
    c.conform("d_omtp", "OmtpTrace", cases, name="images", shards=8)
    # the tools
    cases = []
    for k in range(c.pick(160, 1500)):
        ops = [{"op": "oput", "file": "f", "bytes": image(rng, rng.random() < .25)}]
        ops += [{"op": "otool", "tool": t, "file": "f"} for t in ("pgm", "pgm", "write", "debug", "sector") if t == "pgm" or rng.random() < .35]
        cases.append({"ops": ops})
    for k in range(c.pick(8, 60)):
        n = rng.choice([2655, 2656, 2657, 2660, 2700, 2727, 2855, 3164, 3165, 3166, 3300, 2656 + rng.randrange(500)])
        w = rng.choice([802, 803, 801, 900, 802, 802, 1000])
        p = {"lines": n, "per": rng.choice([1, 7, 12, 100, 999]), "w": w, "pad": rng.choice([0, 3]), "a": rng.randrange(1, 250), "b": rng.randrange(1, 250), "c": rng.randrange(250),
             "short": rng.choice([-1, -1, -1, -1, n - 1, 2655, 2654, 0]), "shortw": rng.choice([0, 546, 801, 802]),
             "head": [rng.randrange(65536) for _ in range(25)]}
        p["shortw"] = min(p["shortw"], w)
        cases.append({"ops": [{"op": "osector", "p": p}]})
    c.conform("d_omtp", "OmtpTrace", cases, name="tools", shards=8, env=env)
