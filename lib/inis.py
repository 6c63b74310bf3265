"""Configuration files, and the DB1 directories that are read through them."""

ALPHA = 'aB=[];"\' \n#:x'


def cs(s):
    return list(s.encode("latin1"))


# ---- configuration files
def word(rng, n=6):
    return "".join(rng.choice("abXyZ09_.-") for _ in range(rng.randint(1, n)))


def value(rng):
    v = rng.choice([word(rng), word(rng) + " " + word(rng), str(rng.randint(-99999, 99999)), "%s0%d" % (rng.choice(["", "-", "00"]), rng.randint(0, 999)), "%d.%d" % (rng.randint(-999, 999), rng.randint(0, 999)), rng.choice(["yes", "No", "TRUE", "false", "1", "0", "t", "F", "maybe", "+7", "-0", "-.5", "12abc"]),
                    "x" * rng.randint(1, 300), "a\xe9\xff", "01/02/2003 04:05:06.789", "a = b", "[x]"])
    return v


def written(rng, v):
    k = rng.random()
    if k < .2:
        return '"%s"' % rng.choice([v, " " + v, v + ";#", "it's " + v, "", v + "  "])
    if k < .35:
        return "'%s'" % rng.choice([v, " " + v, ";" + v, '"' + v + '"', "", "#"])
    return v + rng.choice(["", "", " ", "  \t", " ; " + word(rng), "# x", ";", "\r"])


def line(rng):
    k = rng.random()
    pad = rng.choice(["", "", "", " ", "\t", "  "])
    if k < .15:
        return pad + "[" + rng.choice([word(rng, 3), "Sec", "Sec 2", "sec2", "a", "b", "A", "ab"]) + "]" + rng.choice(["", " ", " x", "\r", " ; y = 1"])
    if k < .25:
        return pad + rng.choice(["", "; a = 1", "# b = 2", "x", "=", "= 5", "a =", "a = ; no", "b=# no", "[]", "[] = 4", "a", "\r", ";[a]"])
    return pad + rng.choice([word(rng, 2), "a", "B", "key", "Key two", "a:b", word(rng) * 30, "k;x"]) + rng.choice(["=", " = ", " =", "= ", "\t=\t"]) + written(rng, value(rng))


def ini(rng, n):
    return "\n".join(line(rng) for _ in range(n)) + rng.choice(["\n", "\n", ""])


def sane(t):
    """the texts with a closed bracket for each section and no quote left alone"""
    for l in t.split("\n"):
        w = l.strip(" \t\r\f\v")
        if w.startswith("[") and not w.startswith("[]") and "]" not in w:
            return False
        if "=" in w:
            v = w.split("=", 1)[1].strip(" \t\r\f\v")
            if v[:1] in ('"', "'") and (len(v) == 1 or v[1] == v[0] and len(v) > 2 or v[0] not in v[1:] and True):
                return False
    return True


def keys(rng, t):
    sec, ks = "", []
    for l in t.split("\n"):
        w = l.strip()
        if w.startswith("[") and "]" in w and not w.startswith("[]"):
            sec = w[1:].split("]")[0]
            ks.append(sec)
        elif "=" in w:
            ks.append(sec + ":" + w.split("=")[0].strip())
    return ks or ["a"]


# pairs of keys that the hash function used by the dictionary does not tell apart
PAIRS = [("wk63f4", "2gqke0"), ("rwhebi", "pbxjdg"), ("hycgjf", "kq29j4"), ("pooq6n", "wdz15n"), ("7a5m7i", "z4rq2u"), ("cwn737", "x96yoj"),
         ("nrcauy", "ormy0l"), ("4aa644", "2kaoxz"), ("iuu6ob", "189945"), ("tjs3og", "nrk0iw"), ("t619bs", "o29iiq"), ("yixgbc", "qr8fd7")]


def pair_case(rng):
    a, b = rng.sample(rng.choice(PAIRS), 2)
    ops = [{"op": "read", "text": cs("[s]\n" + "".join("%s = %d\n" % (k, i) for i, k in enumerate(rng.choice([[a], [a, b], [b, "x", a]]))))}]
    for _ in range(8):
        k = cs("s:" + rng.choice([a, b]))
        ops.append(rng.choice([{"op": "get", "key": k}, {"op": "get", "key": k}, {"op": "set", "key": k, "v": cs(word(rng)), "null": 0}, {"op": "unset", "key": k}]))
    return ops + [{"op": "get", "key": cs("s:" + k)} for k in (a, b)] + [{"op": "dump"}]


def full_case(rng):
    """around the sizes at which the dictionary grows, with entries removed before"""
    n = rng.choice([127, 128, 129, 255, 256])
    ops = [{"op": "read", "text": cs("[s]\n" + "".join("k%d = %d\n" % (i, i) for i in range(n - 1)))}]
    gone = [{"op": "unset", "key": cs("s:k%d" % i)} for i in rng.sample(range(n - 1), rng.randint(1, 4))]
    new = [{"op": "set", "key": cs("s:n%d" % i), "v": cs("w%d" % i), "null": 0} for i in range(rng.randint(1, 8))]
    ops += gone + new if rng.random() < .5 else new[:2] + gone + new[2:]
    return ops + [{"op": "get", "key": cs("s:n%d" % i)} for i in range(len(new))] + [{"op": "dump"}, {"op": "reload"}, {"op": "dump"}]


def swap(rng, k):
    return "".join(rng.choice([c, c, c.upper(), c.lower()]) if ord(c) < 128 else c for c in k)


def dict_case(rng, t):
    ks = keys(rng, t)
    ops = [{"op": "read", "text": cs(t)}]
    if rng.random() < .03:
        ops = [{"op": "absent"}]
    live = ops[0]["op"] == "read"
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(ks + ["a", "", ":", "sec:key", "new"]) if rng.random() < .3 else rng.choice(ks)
        k = swap(rng, k)
        o = rng.choice(["get", "get", "get", "get", "set", "unset", "dump", "sections", "save", "reload"])
        if o == "get":
            ops.append({"op": o, "key": cs(k)})
        elif o == "set" and live:
            sec = rng.random() < .15
            kk = k if k in ks or rng.random() < .6 else word(rng, 3) if sec else rng.choice(ks).split(":")[0] + ":" + word(rng, 2)
            if kk.endswith(":") or kk == "":
                continue
            v = rng.choice([value(rng), value(rng), "", "a;b", " x", '"q"', "it's; it", "#", "'x'"])
            ops.append({"op": o, "key": cs(kk), "v": cs(v), "null": int(rng.random() < .15)})
            ops.append({"op": "get", "key": cs(kk)})
        elif o == "unset" and live:
            ops += [{"op": o, "key": cs(k)}, {"op": "get", "key": cs(k)}]
        elif o in ("dump", "sections", "save") or live and o == "reload":
            ops.append({"op": o})
    ops += [{"op": "dump"}, {"op": "sections"}]
    if live:
        ops += [{"op": "reload"}, {"op": "get", "key": cs(rng.choice(ks))}, {"op": "dump"}]
    return ops


def big_case(rng):
    n = rng.choice([120, 127, 128, 129, 130, 200, 257, 300, 520])
    t = "[s]\n" + "".join("k%d = v%d\n" % (i, i) for i in range(n))
    ops = [{"op": "read", "text": cs(t)}]
    for i in rng.sample(range(n), 12):
        ops.append({"op": "unset", "key": cs("s:k%d" % i)})
    for i in range(rng.randint(5, 30)):
        ops.append({"op": "set", "key": cs("S:N%d" % i), "v": cs("w%d" % i), "null": 0})
    for i in [0, n - 1, n // 2] + rng.sample(range(n), 6):
        ops.append({"op": "get", "key": cs("s:k%d" % i)})
    return ops + [{"op": "get", "key": cs("s:n2")}, {"op": "dump"}, {"op": "reload"}, {"op": "dump"}, {"op": "sections"}]


# ---- DB1 directories
CHANNELS = ["VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"]
U = cs("Undefined")
KEYS = {"aoi": [cs(":" + x) for x in ("npixels", "nlines", "cfac", "lfac", "coff", "loff")],
        "names": [{"key": cs(k), "other": cs(o)} for k, o in ((":name", "Undefined"), (":projection", "GRID"), ("station:name", "Undefined"), ("satellite:name", "Undefined"),
                  ("schedule:start", "01/01/2000 00:00:00.000"), ("schedule:end", "01/01/2000 00:00:00.000"), ("schedule:location", "OH"), ("schedule:slot", "HRIT"), ("image:sensor", "Seviri"))],
        "ints": [cs(x) for x in ("satellite:id", "satellite:orbit", "image:pixels", "image:lines", "image:bitsperpixel", "image:nchannels", "image:nproducts")],
        "bools": [cs(x) for x in ("schedule:northsouth", "schedule:day", "image:protected")], "elev": cs("schedule:elevation"),
        "sub": [cs(x) for x in ("variable", "units", "bitsperpixel", "table")], "undef": U,
        "coeff": [cs("calibration:" + x) for x in ("slope", "targetcount", "vc", "a", "b")]}


def some(rng, lines, p=.85):
    return [l for l in lines if rng.random() < p]


def real(rng):
    return "%s%d.%s" % (rng.choice(["", "", "-"]), rng.randint(0, 900), rng.choice(["0", "5", "25", "125", "703"]))


def directory(rng, name, chans):
    w, h = rng.randint(1, 6), rng.randint(1, 5)
    order = rng.sample(chans, len(chans)) if rng.random() < .5 else chans
    bits = rng.choice([3, 4, 5, 5, 6, 8, 0, 1]) if rng.random() < .9 else rng.choice([10, 12, 16, 17, -1, 40, 31])
    aoi = some(rng, ["Name = EuropaX", "Projection = GEOS(%d)" % rng.randint(0, 9), "nPixels = %d" % w, "nLines = %d" % h, "CFAC = %d" % rng.randint(-99999, 99999), "LFAC = %d" % rng.randint(-99999, 99999),
                     "COFF = %d" % rng.randint(-500, 5000), "LOFF = %d" % rng.randint(-500, 5000)])
    info = []
    for sec, ls in (("Station", ["Name = Bologna"]), ("Satellite", ["Name = MSG%d" % rng.randint(1, 4), "ID = %d" % rng.randint(1, 400), "Orbit = %d" % rng.randint(0, 99)]),
                    ("Schedule", ["Start = 0%d/11/2006 12:00:00.000" % rng.randint(1, 9), "End = 02/11/2006 12:12:00.000", "Elevation = %s" % real(rng), "NorthSouth = %s" % rng.choice(["yes", "no", "True", "0", "?"]),
                                  "Location = XX%d" % rng.randint(0, 9), "Day = %s" % rng.choice(["yes", "n", "FALSE", "1", ""]), "Slot = S%d" % rng.randint(0, 9)]),
                    ("Image", ["Sensor = SEV", "Pixels = %d" % w, "Lines = %d" % h, "Protected = %s" % rng.choice(["y", "n"]), "nChannels = %d" % len(chans), "nProducts = 0"])):
        info += ["[%s]" % sec] + some(rng, ls)
        if sec == "Image" and rng.random() < .95:
            info += ["BitsPerPixel = %d" % bits]
    nb = 1 << min(max(bits, 0), 6)
    files, raws = [], []
    for n, ch in enumerate(order):
        var = rng.choice(["Temperature", "Radiance", "Radiance", "Reflectance", "Temp", "Other", "R"])
        if rng.random() < .95:
            info += ["[Channel%d]" % (n + 1)] + (["Name = %s" % ch] if rng.random() < .95 else []) + some(rng, ["Variable = " + var, "Units = %s" % rng.choice(["K", "mW/m2", "%"]), "BitsPerPixel = %d" % rng.randint(8, 16), "Table = %s" % rng.choice(["yes", "no"])], .9)
        code = "T" if var[0] == "T" else ("V" if ch in CHANNELS[:3] else "N") if var[0] == "R" else "U"
        if rng.random() < .85:
            cal = ["[Calibration]"] + some(rng, ["Slope = " + real(rng), "TargetCount = " + real(rng), "Vc = " + real(rng), "A = " + real(rng), "B = " + real(rng)]) + ["[%s]" % var]
            cal += some(rng, ["%s(%d) = %s" % (code, i, real(rng)) for i in range(rng.choice([nb, nb, nb + 3, nb - 1, 2]))], .95)
            files.append({"n": ch + ".Calibration", "text": cs("\n".join(cal) + "\n")})
        if rng.random() < .88:
            k = w * h if rng.random() < .9 else rng.choice([0, 1, w, w * h + 1])
            raws.append({"n": ch, "v": [rng.choice([rng.randrange(nb), rng.randrange(65536)]) for _ in range(k)], "odd": int(rng.random() < .06)})
    if rng.random() < .93:
        files.append({"n": "AoI", "text": cs("\n".join(aoi) + "\n")})
    if rng.random() < .95:
        files.append({"n": "INFO.DBI", "text": cs("\n".join(info) + "\n")})
    return {"op": "dir", "d": name, "files": files, "raws": raws}


def keyed(rng, ch):
    return dict(KEYS, ch=cs(ch), some=rng.sample(range(65536), 20))


def model_dirs():
    """the directories of Db1MC"""
    info = lambda b, x, y: {"n": "INFO.DBI", "text": cs("[Image]\nBitsPerPixel = %d\n[Channel1]\nName = %s\nVariable = R\n[Channel2]\nName = %s\nVariable = R\n" % (b, x, y))}
    cal = lambda ch, c, n: {"n": ch + ".Calibration", "text": cs("[R]\n%s(0) = %d\n%s(1) = %d\n" % (c, n, c, n + 1))}
    raw = lambda ch, v: {"n": ch, "v": v, "odd": 0}
    v, i = "VIS006", "IR_039"
    return [{"op": "dir", "d": "d1", "raws": [raw(v, [0, 1]), raw(i, [1, 1, 0])], "files": [info(1, v, i), cal(v, "V", 10), cal(i, "N", 20)]},
            {"op": "dir", "d": "d2", "raws": [raw(i, [1])], "files": [info(2, i, v), cal(v, "V", 30)]},
            {"op": "dir", "d": "d3", "raws": [raw(v, [5]), raw(i, [])], "files": [info(40, v, i), cal(v, "V", 50)]}]


def db_case(rng):
    nd = rng.choice([1, 1, 2])
    ds = ["d%d" % i for i in range(nd)]
    chans = rng.sample(CHANNELS, rng.randint(1, 4)) if rng.random() < .8 else CHANNELS
    ops = [directory(rng, d, chans if rng.random() < .7 else rng.sample(CHANNELS, 2)) for d in ds]
    cur = ""
    key = lambda ch: keyed(rng, ch)
    if rng.random() < .95:
        ops.append({"op": "open", "d": rng.choice(ds)})
    for _ in range(rng.randint(3, 10)):
        o = rng.choice(["setch", "setch", "ask", "ask", "value", "value", "has", "open", "close"] if rng.random() < .6 else ["setch", "ask", "value", "has"])
        ch = rng.choice(chans + ["HRV", "NONE"] if rng.random() < .2 else chans)
        if o == "setch":
            ops.append({"op": o, "ch": ch, "keys": key(ch)})
            cur = ch
            if rng.random() < .5:
                ops.append({"op": "ask", "keys": key(cur)})
        elif o == "has":
            ops.append({"op": o, "ch": ch})
        elif o == "open":
            ops.append({"op": o, "d": rng.choice(ds + ["none"] if rng.random() < .2 else ds)})
        elif o == "close":
            ops.append({"op": o})
        elif o == "ask":
            ops.append({"op": o, "keys": key(cur)})
        else:
            ops.append({"op": o, "count": rng.choice([-1, 0, 1, 2, 5, 7, 8, 31, 32, 33, 63, 64, 255, 256, 1024]), "keys": key(cur)})
    return ops

