"""Generation of HRIT files: header bytes, and data descriptors."""
from vp import codes, text
import json, re, os

B2 = lambda n: [n >> 8 & 255, n & 255]
B4 = lambda n: [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]
PROLOGUE, EPILOGUE = 425461, 380325


def rec(t, body):
    return [t] + B2(len(body) + 3) + list(body)


def header(ftype, recs, nbytes, dlen=None):
    body = [b for r in recs for b in r]
    bits = nbytes * 8 if dlen is None else dlen
    return [0, 0, 16, ftype] + B4(16 + len(body)) + [bits >> (8 * k) & 255 for k in range(7, -1, -1)] + body


def rnd(rng, n):
    return [rng.randrange(256) for _ in range(n)]


def number(rng):
    return rng.choice(["0", "+009.5", "-3.5", "000.0", "63", "+12.125", "-", "", "1e2", " 7", "0x10", "nan", "12.5.1", "+179.75", ".5", "9." ])


def navig_name(rng):
    k = rng.random()
    if k < .5:
        s = "GEOS(" + number(rng) + rng.choice([")", ")", "", ",", ")x"])
    elif k < .75:
        s = "POLAR(" + number(rng) + rng.choice([",", ",", ",", "", ";"]) + number(rng) + rng.choice([")", ""])
    else:
        s = rng.choice(["PSD", "MERCATOR", "PX", "X", "", "GEOS", "G", "PO", "P", "M", "LATLON", "geos(1)"])
    b = codes(s)[:32]
    return b + [rng.choice([32, 0])] * (32 - len(b))


def annotation(rng, p1=None, full=True):
    p1 = p1 or rng.choice(["MSG2", "MSG1", "MSG3", "MSG2_RSS", "GOES11", "MTSAT1R", "MET7", "NOAA17", "METOP", "GMS5", "ABC", "xMSGx"])
    s = "H-000-%s-%s-%s-%s-%s" % (rng.choice(["MSG2__", "MSG1__", "GOES__"]), p1.ljust(12, "_"), rng.choice(["IR_108___", "HRV______", "_________"]),
                                  rng.choice(["PRO______", "EPI______", "000001___"]), rng.choice(["200611141200", "201001010000"]))
    s += rng.choice(["-C_", "-__"] if full else ["-C_", "-", "", "-C"])
    b = codes(s)
    if not full and rng.random() < .3:
        b = b[:rng.randint(0, len(b))]
    if not full and rng.random() < .3:
        b[rng.randrange(len(b) or 1):][:1] = [rng.randrange(256)] if b else []
    return (b + [0] * 61)[:61]


def record(rng, lines=None, broken=0.0):
    t = rng.choice([1, 2, 3, 4, 5, 6, 7, 128, 129])
    if rng.random() < broken:
        return rec(rng.choice([t, 0, 8, 9, 127, 130, 131, 255]), rnd(rng, rng.choice([0, 1, 5, 6, 7, 9, 10, 48, 61, 62])))
    if t == 1:
        r = rec(1, [rng.choice([8, 10, 16, rng.randrange(256)])] + B2(rng.choice([1, 2, 5, 3712, rng.randrange(65536)])) + B2(rng.choice([0, 1, 2, 3, 40])) + [rng.randrange(3)])
    elif t == 2:
        r = rec(2, navig_name(rng) + rnd(rng, 16))
    elif t == 3:
        r = rec(3, [rng.choice([10, 48, 65, 97, 0 if rng.random() < .1 else 32, 200]) for _ in range(rng.choice([0, 1, 5, 40, 300]))])
    elif t == 4:
        r = rec(4, annotation(rng, full=rng.random() < .7))
    elif t == 5:
        r = rec(5, rnd(rng, 7))
    elif t == 6:
        r = rec(6, [rng.choice([48, 65, 97, 0, 200]) for _ in range(rng.choice([1, 2, 5, 40, 300]))])
    elif t == 7:
        r = rec(7, rnd(rng, 9))
    elif t == 128:
        r = rec(128, rnd(rng, 10))
    else:
        n = rng.choice([0, 1, 2, 3, 40])
        r = rec(129, rnd(rng, 13 * n + rng.choice([0, 0, 0, 5])))
    return r


def mutate(rng, h):
    h = list(h)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        if k < .25 and h:
            h[rng.randrange(len(h))] = rng.choice([0, 1, 255, 128, rng.randrange(256)])
        elif k < .4:
            del h[rng.randrange(len(h) + 1):]
        elif k < .55 and h:
            p = rng.randrange(len(h))
            del h[p:p + rng.randint(1, 5)]
        elif k < .7:
            p = rng.randrange(len(h) + 1)
            h[p:p] = rnd(rng, rng.randint(1, 5))
        elif k < .85 and len(h) >= 8:
            n = rng.choice([0, 15, 16, 19, len(h) - 1, len(h), len(h) + 1, 70000, 0x7fffffff, 0x80000000, 0xffffffff])
            h[4:8] = B4(max(n, 0))
        elif len(h) >= 19:
            # the length of the first record
            h[17:19] = B2(rng.choice([0, 1, 2, 3, 4, 8, len(h) - 16, len(h) - 15, 65535]))
    return h


def pattern(rng, n, patch=()):
    return {"n": n, "a": rng.choice([0, 1, 3, 7, 11, 127, 251]), "b": rng.choice([0, 1, 5, 13, 100]), "seed": rng.randrange(256), "patch": list(patch)}
