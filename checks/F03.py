"""F03: times and calendar."""
from vp import codes

KINDS = {"short": 6, "cds": 8, "expanded": 10, "cuc": 7, "general": 15}
ZONES = ["", "UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY+11:30", "Europe/Rome"]


def date(rng):
    y, m = rng.choice([1958, 1970, 2000, 2006, 2100, rng.randint(1000, 9999)]), rng.randint(1, 12)
    d = rng.choice([1, 28, rng.randint(1, 28), 29 if m != 2 else 28])
    return codes("%04d%02d%02d%02d%02d%02dZ" % (y, m, d, rng.choice([0, 2, 23, rng.randint(0, 23)]), rng.randint(0, 59), rng.randint(0, 59)))


def b2(n):
    return [n >> 8 & 255, n & 255]


def b4(n):
    return b2(n >> 16) + b2(n)


def time(rng, kind, day=None):
    if kind == "general":
        return date(rng)
    if kind == "cuc":
        return [rng.choice([0, 1, 9, 10, 99, 100, 255, rng.randrange(256)]) for _ in range(7)]
    day = rng.choice([0, 1, 4382, 4383, 17800, 65535, rng.randrange(65536)]) if day is None else day
    ms = rng.choice([0, 999, 1000, 86399999, 86400000, 0x7fffffff, 0x80000000, 0xffffffff, rng.randrange(86400000), rng.getrandbits(32)])
    us = lambda: rng.choice([0, 5, 50, 999, 1000, 65535, rng.randrange(1000)])
    return b2(day) + b4(ms) + {"short": [], "cds": b2(us()), "expanded": b2(us()) + b2(us())}[kind]


def run(c):
    c.build("d_facts")
    r = c.model("TimesMC", "TimesMC.cfg", "every day the records can say", workers=1)
    rng = c.rng
    cases = []
    days = [b for b in r.emitted]
    for k in range(0, len(days), 20):
        ops = []
        for b in days[k:k + 20]:
            kind = rng.choice(["short", "cds", "expanded"])
            ops += [{"op": "tread", "kind": kind, "bytes": time(rng, kind, b["day"]), "fresh": rng.randrange(2)}, {"op": "told", "kind": kind},
                    {"op": "jday", "y": b["date"]["y"], "m": b["date"]["m"], "d": b["date"]["d"]}]
        cases.append({"ops": ops})
    # objects of every kind read from time to time, and asked in between, in different places
    for _ in range(c.pick(600, 8000)):
        ops = []
        for _ in range(rng.randint(3, 12)):
            kind = rng.choice(list(KINDS) + ["general"])
            k = rng.random()
            if k < .2:
                ops.append({"op": "tz", "tz": rng.choice(ZONES)})
            elif k < .6:
                ops.append({"op": "tread", "kind": kind, "bytes": time(rng, kind), "fresh": rng.randrange(2)})
            ops.append({"op": "told", "kind": kind})
            if rng.random() < .2:
                ops.append({"op": "told", "kind": rng.choice(list(KINDS))})
        cases.append({"ops": ops})
    ops = []
    for _ in range(c.pick(1000, 10000)):
        y, m, d = rng.choice([2000, 2004, 1900, 2100, rng.randint(1900, 2200)]), rng.randint(1, 12), rng.randint(1, 28)
        lat, lon = rng.uniform(-89, 89), rng.uniform(-180, 180)
        import datetime
        ops.append({"op": "sun", "y": y, "m": m, "d": d, "jday": datetime.date(y, m, d).timetuple().tm_yday, "H": rng.randint(0, 23), "M": rng.randint(0, 59), "lat": repr(lat), "lon": repr(lon)})
    cases += [{"ops": ops[k:k + 25]} for k in range(0, len(ops), 25)]
    c.conform("d_facts", "FactsTrace", cases, name="times", shards=8)
