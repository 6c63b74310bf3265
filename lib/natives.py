"""Generation of MSG files in native format: descriptors of patterns with patches."""
from vp import codes
from hrits import B4, pattern

MPH, PKT, LH, HEADER, TRAILER = 5114, 38, 27, 445248, 380325
DATES = [MPH + PKT + 1 + 60134 + 700 + 12, MPH + PKT + 1 + 60134 + 700 + 27]


def at(k):
    return 80 * k if k < 6 else 480 + 62 * (k - 6) if k < 11 else 2154 + 80 * (k - 11)


def named(rng, name, value):
    s = (name + " " * rng.choice([0, 1, 10])).ljust(rng.choice([0, 29]))
    if not s.endswith(" "):
        s += rng.choice([" ", " ", "  "])
    return s + ":" + rng.choice([" ", " ", "", "   "]) + value


def field(rng, k, text, end=None):
    width = 80
    b = codes(text) + ([10] if rng.random() < .9 else []) + ([0] if end is None else end)
    if end is None and rng.random() < .3:
        b += [rng.randrange(256) for _ in range(rng.randint(0, 20))]
    if end is None and rng.random() < .1:
        b = (codes(text) + [32] * 80)[:79] + [10]       # fills the field
    return {"at": at(k), "is": b[:width]}


def number(rng, n, p):
    """the text of a number, sometimes not one"""
    if rng.random() < p:
        return rng.choice(["", "-", "x", "- 5", "-1", "+", "99999999999", "-2147483649", ".5", "0x2", ":", "n 5", "\t"])
    return rng.choice(["%d", "%d", "%d", "%05d", "+%d", "  %d", "%d.5", "%dx"]) % n


def native(rng, bad=0.0):
    """a file; bad is how likely each thing that can be wrong is"""
    chans = rng.choice([[0], [8], [3, 8], [11], [0, 11], list(range(12)), list(range(11)), [10, 11], [], [1, 2]])
    nl = rng.choice([0, 1, 1, 2, 3, 5]) if len(chans) < 4 else rng.choice([1, 1, 2])
    nc = rng.choice([0, 1, 4, 5, 7, 8, 12, 16])
    fit = (nc * 10 + 7) // 8
    hl, hc = rng.choice([3 * nl, 3 * nl, nl, 3 * nl + 2, 0]), rng.choice([nc, 2 * nc, 3])
    per = [c for c in chans for _ in range(3 if c == 11 else 1)]
    packets, at0 = [], MPH + PKT + HEADER
    first = rng.random() < .4
    gap = rng.choice([0, 0, 0, 1, 100])
    data = at0 + gap + (PKT + TRAILER if first else 0)
    p = data
    for _ in range(nl):
        for c in per:
            n = rng.choice([fit, fit, fit, (fit + 4) // 5 * 5, fit + 1, max(0, fit - 1), 0, 5, 6])
            length = LH + n + 15
            packets.append({"at": p + 18, "is": B4(length)})
            if rng.random() < bad * .3:
                packets[-1]["is"] = B4(rng.choice([0, 14, 15, 41, length + 1, max(length - 1, 0), 1 << 24, 1 << 28, 400, 42]))
            if rng.random() < .7:
                packets.append({"at": p + PKT + 17, "is": [c + 1]})
            p += PKT + LH + n
    trailer = at0 + gap if first else p + rng.choice([0, 0, 7])
    end = p if first else trailer + PKT + TRAILER
    n = end
    if rng.random() < bad:
        n = rng.choice([end - 1, end - rng.randrange(1, 50), end - rng.randrange(1, end), data, data + 1, data + 37, data + 64, at0, at0 - 1, MPH, MPH - 1, 0, 100, end + 1])
    patch = []
    bands = "".join(("X" if c in chans else rng.choice("--- x0")[0:1].replace(" ", "-")) for c in range(12))
    bands = bands.rstrip("-") or bands if rng.random() < .1 else bands + rng.choice(["", "", "", "X", "XXXXXXXXX", " X"])
    if rng.random() < bad * .3:
        bands = rng.choice(["", "X", "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX", "\t", "-"])
    names = {40: "SouthLineSelectedRectangle", 41: "NorthLineSelectedRectangle", 42: "EastColumnSelectedRectangle", 43: "WestColumnSelectedRectangle",
             44: "NumberLinesVISIR", 45: "NumberColumnsVISIR", 46: "NumberLinesHRV", 47: "NumberColumnsHRV"}
    vals = {40: 1, 41: nl, 42: 1, 43: nc, 44: nl, 45: nc, 46: hl, 47: hc}
    b = bad * .1
    for k in range(48):
        if 6 <= k <= 10:
            v = {8: 5152, 9: data, 10: trailer}.get(k, rng.randrange(10 ** 6))
            if rng.random() < b:
                v = rng.choice([-1, v + 1, n, n + 1, 10 ** 9 + 7, 0, 999999999999])
            first_part = named(rng, rng.choice(["15HEADER", "LINE_DATA_X", "a:b"]), rng.choice(["%d ", "%d  ", "+%d\t"]) % rng.choice([0, 5, 445286, 10 ** 12]))
            second = "%d\n" % v if rng.random() >= b else rng.choice(["", "x\n", "-\n", "\n"])
            f = codes(first_part)
            f = f[:45] + [0]
            if rng.random() < .3:
                f = (codes(first_part) + [32] * 46)[:46]
            s = codes(second)[:15] + [0]
            if rng.random() < .2:
                s = (codes(second) + [32] * 16)[:16]
            patch += [{"at": at(k), "is": f}, {"at": at(k) + 46, "is": s}]
        elif k == 39:
            patch.append(field(rng, k, named(rng, "SelectedBandIDs", bands)))
        elif k in vals:
            t = named(rng, names[k], number(rng, vals[k], b * .5))
            if rng.random() < b * .3:
                t = rng.choice(["", "NumberLines", "NumberLines:5", "NumberLines 5", " : 5", "a b : 5"])
            patch.append(field(rng, k, t))
        else:
            patch.append(field(rng, k, named(rng, "Text%d" % k, rng.choice(["x", "", "20061114120000.000Z"]))))
    for q, v in ((MPH + 18, HEADER + 15), (trailer + 18, TRAILER + 15)):
        if rng.random() < b * .5:
            v = rng.choice([v + 1, v - 1, 0, 14, 15, 0xffffffff])
        patch.append({"at": q, "is": B4(v)})
    for q in DATES:
        patch.append({"at": q, "is": codes("%04d%02d%02d%02d%02d%02dZ" % (rng.randint(1900, 2099), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))})
    d = pattern(rng, max(0, n), patch + packets)
    if d["a"] == 0 and d["b"] == 0:
        d["a"] = 7
    d["lead"], d["skip"] = [], 0
    return d, chans
