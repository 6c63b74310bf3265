"""H01: HRI files: headers, images and their calibration are what the bytes say."""
import struct

ZONES = ["UTC", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "AAA-13", "BBB11", "CET-1CEST,M3.5.0,M10.5.0/3", ""]
FORMATS = {"AV": (0, 0, 1, 0), "AVH": (0, 0, 2, 0), "AW": (0, 0, 0, 1), "AIW": (0, 1, 0, 1), "AIVH": (0, 1, 2, 0), "BW": (255, 0, 0, 1), "BIV": (255, 1, 1, 0),
           "BIVH": (255, 1, 2, 0), "BIW": (255, 1, 0, 1), "XI": (15, 1, 0, 0), "XW": (15, 0, 0, 1), "XVH": (15, 0, 2, 0)}
LINES = {"AV": 10000, "AVH": 2500, "AW": 2500, "AIW": 5000, "AIVH": 5000, "BW": 625, "BIV": 3125, "BIVH": 3125, "BIW": 1250, "XI": 1250, "XW": 1250, "XVH": 1250}
SIZES = {"AV": [(5000, 5000)], "BIV": [(1250, 625), (2500, 1250)], "BIVH": [(1250, 625), (2500, 1250)]}


def limbs(v):
    return list(struct.unpack(">HHHH", struct.pack(">d", v)))


def odd(rng):
    return rng.choice([0, 0, 255, 15, 240, 1, 128, rng.randrange(256)])


def u2(v):
    return [v >> 8 & 255, v & 255]


def ibm(rng, n):
    """the bytes of an IBM floating point number"""
    e = rng.choice([64, 65, 66, 64, 63, 70, 60, 68, 62, rng.randrange(34, 94)]) if rng.random() < .9 else rng.randrange(128)
    f = [rng.choice([0, 0, 1, 16, 255, 128, rng.randrange(256)]) for _ in range(n - 1)]
    if rng.random() < .5:
        f[0] = rng.randrange(16, 256)
    return [e + 128 * rng.choice([0, 1])] + f


def label(rng, f=None):
    if f:
        a, i, v, w = FORMATS[f]
        s, n = (0, 0) if not v else rng.choice([(255, 0), (0, 255), (255, 255), (255, 240), (15, 255)]) if v == 2 else rng.choice([(240, 0), (15, 0), (0, 240), (0, 15), (240, 15), (1, 0)])
        t = [a, s, n, rng.choice([255, 1, 240]) if i else 0, rng.choice([255, 1, 15]) if w else 0]
    else:
        t = [rng.choice([0, 255, 15, 15, 0, 255, 240, 1]), odd(rng), odd(rng), odd(rng), odd(rng)]
    return [odd(rng) for _ in range(12)] + t + [odd(rng), rng.choice([0, 1, 2, 4, 8, 15, 255, rng.randrange(256)]), rng.choice([0, 240, 15, 255, 1])] + [odd(rng) for _ in range(4)]


def ident(rng, sat=None, bad=False):
    sat = sat or rng.choice([[212, rng.choice([241, 245, 247, 250, 255])], [212, rng.choice([0, 240, 7, 241])], [0, 0], [0, 1], [0, 2], [0, 3]])
    if bad:
        sat = rng.choice([[0, 4], [0, 255], [1, 0], [255, 1], [213, 245], [128, 128]])
    y = rng.choice([1972, 1984, 1995, 1996, 1998, 1999, 2000, 2001, 2004, 1970, 1971, 2037])
    leap = y % 4 == 0
    j = rng.choice([1, 31, 32, 59, 60, 61, 90, 91, 182, 366 if leap else 365, 365, rng.randrange(1, 366)])
    h = rng.choice([0, 23, 12, 6, rng.randrange(24)]) * 100 + rng.choice([0, 30, 59, 1, rng.randrange(60)])
    return sat + u2(y) + u2(j) + u2(h) + [odd(rng) for _ in range(12)] + u2(rng.choice([0, 1, 1250, 32767, 32768, 65535])) + u2(rng.choice([0, 2, 2500, 40000])) + u2(rng.choice([0, 63, 140, 65535, 65461, 285]))


def digits(rng, n):
    return [rng.choice([48, 49, 53, 57, 32, rng.randrange(48, 58)]) for _ in range(n)]


def caltext(rng):
    """from offset 46 on: day, slot, IR coefficient and space count; the same for WV"""
    return digits(rng, 5) + [rng.choice([48, 48, 49, 32])] + digits(rng, 4) + rng.choice([[48, 53, 48], [48, 52, 55], [48, 48, 48], digits(rng, 3), [32, 54, 50]]) + digits(rng, 5) \
        + [rng.choice([48, 48, 32, 50])] + digits(rng, 4) + rng.choice([[48, 53, 48], [48, 54, 51], digits(rng, 3)])


def interp_case(rng):
    b = [0] * 560
    for o in range(0, 100):
        b[o] = digits(rng, 1)[0]
    for o in list(range(104, 176, 8)) + list(range(272, 328, 8)):
        b[o:o + 8] = ibm(rng, 8)
    for o in [180, 328, 332, 336, 340, 364, 368, 372, 376, 380, 384] + list(range(392, 456, 4)):
        b[o:o + 4] = ibm(rng, 4)
    for o in list(range(176, 180)) + list(range(184, 196)) + list(range(232, 243)) + list(range(248, 272)) + list(range(344, 364)) + list(range(388, 392)) + list(range(456, 472)):
        b[o] = odd(rng)
    n = rng.choice([0, 1, 40, 799, 800, 800, rng.randrange(800)])
    return [{"op": "interp", "bytes": b, "msg": "".join(rng.choice("ABC xyz09.,") for _ in range(n))}]


def key(rng, slot, st=None):
    return [slot, rng.choice([1, 255, 128]), rng.choice([0, 1, 2, 7, 15, 200]), 0, st if st is not None else rng.choice([0, 1, 2, 200, 255])] + [rng.randrange(256) for _ in range(8)]


def some_keys(rng):
    slots = sorted(rng.sample(range(120), rng.choice([0, 1, 3, 10, 40])) + ([119] if rng.random() < .5 else []))
    return [key(rng, s) for s in sorted(set(slots))]


def small_case(rng):
    ops = []
    for _ in range(6):
        ops.append({"op": "label", "bytes": label(rng, rng.choice([None, rng.choice(list(FORMATS))]))})
        ops.append({"op": "ident", "bytes": ident(rng, bad=rng.random() < .1), "tz": rng.choice(ZONES)})
        ops.append({"op": "r4", "bytes": ibm(rng, 4)})
        ops.append({"op": "r8", "bytes": ibm(rng, 8)})
    ks = some_keys(rng)
    if rng.random() < .3:
        ks = [[s[0], rng.choice([0, s[1]])] + s[2:] for s in ks]
    ask = [[s[4], s[2]] for s in ks[:6]] + [[rng.choice([0, 1, 2, 7, 200, 255]), rng.choice([0, 1, 2, 255])] for _ in range(4)]
    ops.append({"op": "keys", "slots": ks, "ask": ask})
    return {"ops": ops + interp_case(rng)}


def image_case(rng):
    """the lines of an image, in any order"""
    ops = []
    for k in range(rng.choice([1, 1, 2])):
        f, b = rng.choice([("A", "IR"), ("A", "WV"), ("A", "VH"), ("A", "VIS"), ("B", "IR"), ("B", "WV"), ("B", "VIS"), ("X", "IR"), ("X", "WV"), ("X", "VH")] * 3 + [("B", "VH"), ("X", "VIS")])
        sat = rng.choice(["GOES-E", "GOES-W", "GMS", "INDOX"]) if f == "X" else "METEOSAT"
        ops.append({"op": "inew", "fmt": f, "band": b, "sat": sat, "again": rng.choice([0, 1])})
        h, w = {"A": (2500, 2500), "B": (625, 1250), "X": (1250, 1250)}[f]
        if b == "VIS":
            h, w = 2 * h, 2 * w
        ys = [0, h - 1, h // 2, rng.randrange(h)]
        bad = lambda: rng.random() < .08
        for _ in range(rng.randrange(4, 14)):
            y = rng.choice([-1, h, h + 1, -h]) if bad() else rng.choice(ys)
            o = rng.choice(["iput", "ihalf", "ipixel", "iline", "ical", "icoeff"])
            xs = [0, w // 2 - 3, w // 2 - 2, w // 2 - 1, w // 2, w - 3, w - 2, w - 1, rng.randrange(w)]
            if o == "iput":
                ops.append({"op": o, "y": y, "n": w + rng.choice([-1, 1, -w // 2]) if bad() else w, "seed": rng.randrange(256)})
            elif o == "ihalf":
                ops.append({"op": o, "y": y, "n": w // 2 + rng.choice([-1, 1, w // 2]) if bad() else w // 2, "seed": rng.randrange(256), "half": rng.choice([1, 2])})
            elif o == "ipixel":
                ops.append({"op": o, "y": y, "x": rng.choice([-1, w, w + 1]) if bad() else rng.choice(xs)})
            elif o == "iline":
                ops.append({"op": o, "y": y, "xs": xs})
            elif o == "icoeff":
                ops.append({"op": o, "cc": limbs(rng.choice([.074, .0078, .05, .25, .00123])), "sc": limbs(rng.choice([5, 0, 5.5, 6, 12.25]))})
            else:
                ops.append({"op": o, "ns": [0, 255, rng.randrange(256), 4, 5, 6, 12, 13, 78, 79, 80]})
    return {"ops": ops}


def file_case(rng, names, faults=True):
    ops = []
    for k in range(rng.choice([1, 1, 2])):
        f = rng.choice(names)
        tec = rng.choice([0, 0, 1])
        a = f[0] == "A"
        per = (3072 if a else 1536) if tec else (364 * (8 if a else 4))
        head = (2048 + (1536 if a else 0)) if tec else (364 * (8 if a else 4))
        sizes = SIZES.get(f, [(2500, 2500)] * 2 if a else [(1250, 625)] * 2 if f[0] == "B" else [(1250, 1250)])
        px = []
        for _ in range(60):
            q = rng.randrange(len(sizes))
            w, h = sizes[q]
            x = rng.choice([0, 1, w - 1, w - 3, w // 2 - 2, w // 2 - 3, w // 2, rng.randrange(w), rng.randrange(w), rng.choice([295, 296, 327, 328, 655, 656, 687, 688, 1047, 1048, 167, 168])])
            px.append([q, rng.choice([0, 1, 2, h - 1, h - 2, h // 2, rng.randrange(h), rng.randrange(h)]), x])
        r = {"op": "file", "tec": tec, "id": 112 if a else 48, "v": rng.randrange(256), "label": label(rng, f), "ident": ident(rng, sat=rng.choice([None, [212, 247]]) if f[0] != "X" else None),
             "caltext": caltext(rng), "satdis": [rng.choice([68, 69]), rng.randrange(16, 256)] + [rng.randrange(256) for _ in range(6)], "seed": [rng.randrange(256) for _ in range(8)],
             "slots": some_keys(rng) if a else [], "msg": "", "lines": LINES[f], "cut": -1, "bad": -1, "px": px, "ns": [0, 255, rng.randrange(256), 5, 6, 79, rng.randrange(256)],
             "tz": rng.choice(ZONES), "same": rng.choice([0, 1])}
        if faults and rng.random() < .45:
            x = rng.randrange(6)
            total = head + per * LINES[f]
            if x == 0:
                r["cut"] = rng.choice([0, 3, 100, 363, 364, 2047, 2048, head - 1, head, head + 1, total - 1, total - per, rng.randrange(total)])
            elif x == 1:
                n = (head // 364 + per // 364 * LINES[f]) if not tec else 1 + LINES[f]
                r["bad"] = rng.choice([0, 1, n - 1, rng.randrange(n)])
            elif x == 2:
                r["label"] = label(rng, None)
                if r["label"][12] in (0, 255, 15) and (r["label"][12] == 0) != a:
                    r["label"][12] = 7
                r["lines"] = 0
                if code(r["label"]) in FORMATS:
                    r["label"] = label(rng, f)
                    r["lines"] = LINES[f]
            elif x == 3:
                r["ident"] = ident(rng, bad=True)
            elif x == 4 and not a:
                r["id"] = rng.choice([0, 47, 113, 255])
            else:
                r["cut"] = rng.randrange(head, total)
        ops.append(r)
    return {"ops": ops}


def code(l):
    v = l[13] or l[14]
    return {0: "A", 255: "B", 15: "X"}.get(l[12], "?") + ("I" if l[15] else "") + ("V" if v else "") + ("W" if l[16] else "H" if v and 255 in (l[13], l[14]) else "")


def run(c):
    c.build("d_hri")
    c.model("HriMC", "HriMC.cfg", "the reader over every format, plain and TECNAVIA, and every label", workers=4)
    c.conform("d_hri", "HriTrace", [small_case(c.rng) for _ in range(c.pick(80, 1500))], name="headers", shards=8, per_case=30)
    c.conform("d_hri", "HriTrace", [image_case(c.rng) for _ in range(c.pick(120, 2000))], name="images", shards=8, per_case=30)
    small = ["BW", "BIW", "XI", "XW", "XVH", "BIV", "BIVH"]
    cases = [file_case(c.rng, small) for _ in range(c.pick(70, 800))] + [file_case(c.rng, ["AW", "AVH", "AIW", "AIVH"]) for _ in range(c.pick(25, 250))] \
        + [file_case(c.rng, ["AV"]) for _ in range(c.pick(6, 60))]
    c.conform("d_hri", "HriTrace", cases, name="files", shards=8, per_case=60)
