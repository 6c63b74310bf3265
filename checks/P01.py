"""P01: OpenMTP files: header, image and calibration are what the bytes say."""
T, HEAD, VIS = 1345, 1345 + 5175 + 2636 + 136704, 1345 + 5175 + 2636 + 185188
ARRAYS = [20, 20, 20, 256, 256, 6, 6, 3, 3, 12, 12, 2, 11025, 11025] + [3030] * 8


def w4(v):
    return [v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255]


def at(q, v):
    return {"at": T + q, "v": v}


def name(rng, n):
    s = [rng.choice(list(range(65, 91)) + [32]) for _ in range(n)]
    if rng.random() < .4:
        k = rng.randrange(1, n)
        s[k:] = [0] * (n - k)
    return s


def digits(rng):
    """coefficient, space count, day and slot of the calibration"""
    d = lambda n: [rng.choice([48, 57, 32, 53, rng.randrange(48, 58)]) for _ in range(n)]
    c = rng.choice([[48, 48, 48, 48, 48], [48, 48, 57, 51, 51], [48, 54, 53, 49, 50], [32, 48, 55, 32, 49], d(5)])
    s = rng.choice([[48, 53, 48], [48, 48, 48], [48, 54, 51], [32, 53, 57], [57, 57, 57], [49, 50, 53], d(3)])
    return c + s + d(5)


def a_file(rng, n, sizes, chans=range(9), sats=("M7", "M7", "M7", "M6", "M5", "MA", "N7")):
    h, w = sizes
    y = rng.choice([1996, 1999, 2000, 2006, rng.randrange(1970, 2038)])
    proc, chan = rng.choice([0, 1, 2, 3, 4, 5, 7]), rng.choice(list(chans))
    m, d, hh, mm = rng.choice([1, 2, 12, 10, rng.randrange(1, 13)]), rng.choice([1, 9, 28, rng.randrange(1, 29)]), rng.choice([0, 9, 23, rng.randrange(24)]), rng.choice([0, 7, 59, rng.randrange(60)])
    sat = [ord(x) for x in rng.choice(sats)]
    if rng.random() < .05:
        sat[rng.randrange(2)] = 0
    runs = [at(0, name(rng, 8)), at(8, w4(y)), at(24, w4(y % 100 * 10000 + m * 100 + d)), at(28, w4(hh * 100 + mm)), at(32, sat), at(36, w4(proc)), at(40, w4(chan)), at(44, digits(rng)),
            at(72, name(rng, 15)), at(115, name(rng, 8)), at(123, w4(rng.choice([1, 1810, 3620, 1811, 3619]))), at(131, w4(h)), at(135, w4(w))]
    for q in (16, 87, 91, 111, 5155, 5179, 5183):
        runs.append(at(q, w4(rng.choice([0, 1, 2, 3, 4, 5, 6, 256, 1 << 24, 0x80000000]))))
    for q in (155 + rng.randrange(2480), 2655 + rng.randrange(2480), 155, 2654, 2655, 5154, 7559 + rng.randrange(14), 7559, 7569):
        if rng.random() < .6:
            runs.append(at(q, rng.choice([[0], [0], [0, 0, 1], [1], [128], [255]])))
    if rng.random() < .1:
        runs.append(at(36, w4(rng.choice([0x80000001, 0x10000, 0xFFFFFFFF]))))
    if rng.random() < .1:
        runs.append(at(40, w4(rng.choice([0x80000003, 0x10004, 0x03000000]))))
    comp = runs[-1]["v"] == w4(3) if runs[-1]["at"] == T + 40 else chan == 3
    head = VIS if comp else HEAD
    return {"op": "file", "n": n, "len": head + h * (w + 32), "seed": rng.randrange(256), "runs": runs}, head


LABELS = ["Year", "Jday", "Slot", "Dtype", "Date", "Time", "Proc", "Rec2siz", "Lrecsize", "Loffset", "Dmmod", "Rsmet", "Origin", "Line1", "Pixel1", "Nlines", "Npixels", "Imgqua", "Int", "Imp",
          "Spr", "Rpr", "Lre", "Lb0", "Nsi", "Irchan", "Lstart", "Ls", "Ln", "Ndgrp", "Dmstrt", "Dmend", "Dmstep", "Ncor", "Chid1", "Chid2"]


REALS = ["Ssp", "Timef", "Timel", "Htime", "Hortim South", "Hortim North", "Rmid", "Tmid", "Distan", "Betaso", "Betano", "Betase", "Betane", "Etas", "Etan", "Betasn", "Betann", "F0old",
         "F1old", "F0new", "F1new", "S0", "S1", "S2", "Sigmas", "Orbf 0", "Orbf 5", "Orbl 0", "Orbl 5", "Attf 0", "Attf 2", "Attl 0", "Attl 2", "CalC0", "Space"]
TABLES = ["Defmax", "Defmay", "Ewgeo1", "Nsgeo1", "Roff1", "Rgain1", "Ewgeo2", "Nsgeo2", "Roff2", "Rgain2"]


def printing(rng):
    j = lambda n: str(rng.choice([0, n - 1, rng.randrange(n)]))
    cells = []
    for t in TABLES:
        n = 105 * 105 if t[0] == "D" else 3030
        k = rng.choice([0, n - 1, rng.randrange(n)])
        cells.append([t, k, "%s (%d,%d)" % (t, k // 105 + 1, k % 105 + 1) if t[0] == "D" else "%s %d" % (t, k)])
    return {"op": "print", "labels": rng.sample(LABELS, 20) + ["Fls " + j(20), "Nsl " + j(20), "Rdpsim " + j(20), "Hist1 " + j(256), "Hist2 " + j(256), "Hist1 255", "Hist2 255",
                                                               "Earco (%d,%d)" % (rng.randrange(1, 5), rng.randrange(1, 4)), "Horlim (%d,%d)" % (rng.randrange(1, 5), rng.randrange(1, 4))],
            "reals": REALS, "words": ["Product Type", "Satellite Name", "Rtmet", "Idx", "Calctim"], "cells": cells}


def places(rng, n):
    return [0, n - 1] + [rng.randrange(n) for _ in range(2)]


def asks(rng, h, w):
    q = [{"op": "info"}]
    px = [[rng.choice([0, h - 1, rng.randrange(h)]), rng.choice([0, w - 1, rng.randrange(w)])] for _ in range(12)] if h and w else []
    q.append({"op": "image", "px": px, "counts": [0, 255, 5, 6, 7, 50, 63, 100, 125] + [rng.randrange(256) for _ in range(8)]})
    if rng.random() < .5:
        q.append({"op": "header", "some": [places(rng, n) for n in ARRAYS], "ask": [-1, 0, 1, 2499, 2500, 2501, 5000, -2147483647] + [rng.randrange(2500) for _ in range(6)],
                  "table": [0, 2499, rng.randrange(2500)]})
    if rng.random() < .25:
        q.append(printing(rng))
    rng.shuffle(q)
    return q[:rng.choice([2, 4, 4])]


def break_it(rng, f, head, h, w):
    k = rng.randrange(6)
    if k == 0:
        f["len"] = rng.choice([0, 1, T - 1, T, T + 5174, T + 5175, T + 5175 + 2635, T + 5175 + 2636, head - 1, rng.randrange(head)])
    elif k == 1:
        f["len"] = head + rng.choice([0, 31, 32, h * (w + 32) - 1, max(0, (h - 1)) * (w + 32), rng.randrange(h * (w + 32) + 1)])
    elif k == 2:
        f["len"] += rng.choice([1, 31, 1000])
    else:
        f["runs"].append(at(rng.choice([131, 135]), w4(rng.choice([0xFFFFFFFF, 5001, 0x80000000, 0x10000, 0x7FFFFFFF, 65536 + 2, 0xFFFFFFE0, 46341]))))
    f["len"] = max(0, f["len"])


def case(rng, sizes=None, chans=range(9), sats=("M7", "M7", "M7", "M6", "M5", "MA", "N7")):
    ops, shape = [], {}
    for _ in range(rng.choice([2, 3, 4])):
        n = rng.choice([1, 2, 3])
        if n not in shape or rng.random() < .5:
            h, w = sizes or (rng.choice([0, 1, 2, 3, 5, 8]), rng.choice([0, 1, 2, 7, 31, 32, 33, 300, 4968, 5000]))
            f, head = a_file(rng, n, (h, w), chans, sats)
            if not sizes and rng.random() < .3:
                break_it(rng, f, head, h, w)
            shape[n] = (h, w, head)
            ops.append(f)
            if rng.random() < .3 and h:
                a = head + rng.randrange(h) * (w + 32)
                ops.append({"op": "line", "n": n, "at": a, "npix": rng.choice([w, w, w, w + 1, 0, max(w - 1, 0), -1, 5001, 2147483647]), "px": [0] if w < 2 and w else []})
                if ops[-1]["npix"] == w and w:
                    ops[-1]["px"] = [0, w - 1, rng.randrange(w)]
                else:
                    ops[-1]["px"] = []
        h, w, head = shape[n]
        if rng.random() < .15 and w < 400:
            ops.append(dict(printing(rng), op="tool", n=n, px=[[rng.choice([0, h - 1, rng.randrange(h)]), rng.choice([0, w - 1, rng.randrange(w)])] for _ in range(12)] if h and w else []))
        if rng.random() < .3:
            ops.append({"op": "fresh"})
        ops.append({"op": "open", "n": n})
        ops += asks(rng, h, w)
    return {"ops": ops}


def run(c):
    c.build("d_mtp", "t_OpenMTP_info")
    env = {"T_OpenMTP_info": c.drivers["t_OpenMTP_info"]}
    c.model("OpenMtpMC", c.pick("OpenMtpMC.cfg", "OpenMtpMC3.cfg"), "the reader of two files, one after the other: every kind of image, of all the sizes", workers=8)
    rng = c.rng
    c.conform("d_mtp", "OpenMtpTrace", [case(rng) for _ in range(c.pick(300, 3000))], name="files", shards=8, per_case=30, env=env)
    real = [((2500, 2500), (4, 5, 6, 7, 3)), ((625, 1250), (4, 5, 6, 7, 3)), ((1250, 2500), (3, 3, 4)), ((624, 1250), (4, 7)), ((1250, 625), (5,)), ((2500, 1250), (3,)), ((5000, 5000), (3, 3, 4))]
    cases = [case(rng, *q) for q in real for _ in range(c.pick(3, 12))]
    for x in cases:
        for o in x["ops"]:
            if o["op"] == "file" and rng.random() < .7:
                o["runs"].append(at(123, w4(rng.choice([1810, 3620]))))
    c.conform("d_mtp", "OpenMtpTrace", cases, name="whole", shards=8, per_case=60, env=env)
