"""U03: child processes: their descriptors, their life, what the parent is told."""
INS, OUTS, ERRS = ["keep", "pipe", "null", "a", "b", "0"], ["keep", "pipe", "null", "a", "b", "1", "2"], ["keep", "pipe", "null", "a", "b", "1", "2", "out"]


LONG = [9000, 7500, 999, 1500]


def codes(t):
    return [ord(x) for x in t]


def new(c, kind="child", close=1, passing=(), cwd="", session=0, args=(), exe="/proc/self/exe"):
    if kind == "popen":
        a = [codes(x) for x in ["/proc/self/exe", "--helper", "dir", str(c)] + list(args)]
    else:
        a = []
    return {"op": "new", "c": c, "kind": kind, "close": close, "pass": list(passing), "cwd": cwd, "session": session, "args": a, "exe": exe if kind == "popen" else ""}


def std(c, i, o, e):
    return [{"op": "std", "c": c, "which": w, "x": x} for w, x in (("in", i), ("out", o), ("err", e)) if x != "keep"]


def life(rng, ops, c=1):
    """a behaviour of the model, on a child"""
    r = [new(c)]
    for o in ops:
        n = o["n"]
        if o["op"] == "fork":
            r.append({"op": "fork", "c": c, "missing": []})
        elif o["op"] == "signal":
            how = {15: "terminate", 9: "kill"}.get(n, "send") if rng.random() < .6 else "send"
            r += [{"op": "signal", "c": c, "n": n, "how": how}] + ([{"op": "settle", "c": c, "ms": 3000 if n else 5}] if n else [])
        elif o["op"] == "wait0":
            r.append({"op": "wait0", "c": c, "ms": rng.choice([0, 0, 3])})
        elif o["op"] == "waitlong":
            r.append(dict(o, c=c, ms=rng.choice(LONG)))
        else:
            r.append(dict(o, c=c))
    return r


def fix_settle(ops):
    """no settling of children that were never started or already waited for"""
    st, out = "new", []
    for o in ops:
        k = o["op"]
        if k == "fork":
            st = "alive"
        if k == "settle" and st in ("new", "gone"):
            continue
        if k in ("exit", "die") or (k == "signal" and o["n"] and st == "alive"):
            st = "dead"
        if k == "later":
            st = "due"
        if k in ("poll", "wait", "wait0", "waitlong") and st == "dead" or k in ("wait", "waitlong") and st == "due":
            st = "gone"
        out.append(o)
    return out


def data(rng):
    """two children, with pipes and files"""
    ops, io, bytes_ = [], {}, lambda n: [rng.choice([0, 10, 65, 255, rng.randrange(256)]) for _ in range(n)]
    for c in (1, 2):
        i, o = rng.choice(["pipe", "pipe", "null"]), rng.choice(["pipe", "pipe", "a", "b", "null"])
        e = rng.choice(["keep", "pipe", "a", "b", "out", "null"])
        io[c] = (i, o, e)
        ops += [new(c, rng.choice(["child", "child", "child", "popen"]))] + std(c, i, o, e)
        if rng.random() < .5:
            ops.append({"op": "fork", "c": c, "missing": []})
    started = {o["c"] for o in ops if o["op"] == "fork"}
    for c in (1, 2):
        if c not in started:
            ops.append({"op": "fork", "c": c, "missing": []})
    q, qo, qe, closed = {1: 0, 2: 0}, {1: 0, 2: 0}, {1: 0, 2: 0}, {1: False, 2: False}
    for _ in range(rng.randint(4, 14)):
        c = rng.choice([1, 2])
        i, o, e = io[c]
        k = rng.randrange(5)
        if k == 0 and i == "pipe" and not closed[c]:
            n = rng.choice([0, 1, 5, 200])
            ops.append({"op": "feed", "c": c, "bytes": bytes_(n)})
            q[c] += n
        elif k == 1 and i == "pipe":
            n = rng.choice([q[c], rng.randint(0, q[c]), q[c] + 3 if closed[c] else q[c]])
            ops.append({"op": "read", "c": c, "n": n})
            q[c] = max(0, q[c] - n)
        elif k == 2 and i == "pipe" and rng.random() < .5 and not closed[c]:
            ops.append({"op": "close", "c": c, "which": "in"})
            closed[c] = True
            ops.append({"op": "read", "c": c, "n": q[c] + 1})
            q[c] = 0
        elif k == 3:
            fd = 2 if e in ("pipe", "a", "b", "out", "null") and rng.random() < .5 else 1
            n = rng.choice([1, 7, 300])
            ops.append({"op": "write", "c": c, "fd": fd, "bytes": bytes_(n)})
            t = o if fd == 1 or e == "out" else e
            if t == "pipe":
                (qo if fd == 1 or e == "out" else qe)[c] += n
        elif k == 4:
            w, d = ("out", qo) if o == "pipe" and (e != "pipe" or rng.random() < .5) else ("err", qe) if e == "pipe" else ("", None)
            if w:
                n = rng.choice([d[c], rng.randint(0, d[c])])
                ops.append({"op": "drain", "c": c, "which": w, "n": n})
                d[c] -= n
    for c in rng.sample([1, 2], 2):
        i, o, e = io[c]
        n = rng.choice([0, 1, 3, 127, 255])
        ops.append({"op": "exit", "c": c, "n": n})
        if o == "pipe":
            ops.append({"op": "drain", "c": c, "which": "out", "n": qo[c] + 1})
        if e == "pipe":
            ops.append({"op": "drain", "c": c, "which": "err", "n": qe[c] + 1})
        ops.append({"op": rng.choice(["wait", "poll", "waitlong"]), "c": c, "n": 0, "ms": rng.choice(LONG)})
    ops += [{"op": "cat", "f": "a"}, {"op": "cat", "f": "b"}]
    for c in rng.sample([1, 2], 2):
        if rng.random() < .4:
            for w, x in zip(("in", "out", "err"), io[c]):
                if x == "pipe" and not (w == "in" and closed[c]):
                    ops.append({"op": "close", "c": c, "which": w})
        ops.append({"op": "drop", "c": c})
    return ops


def waiting(rng):
    k = rng.choice(["wait", "poll", "waitlong", "wait0"])
    return {"op": k, "n": 0, "ms": rng.choice(LONG) if k == "waitlong" else 0}


def others(rng):
    """a wait with a timeout while the other child ends"""
    a, b = rng.sample([1, 2], 2)
    ops = [new(a), {"op": "fork", "c": a, "missing": []}, new(b), {"op": "fork", "c": b, "missing": []}]
    ops += [{"op": "later", "c": b, "n": rng.choice([0, 3])}]
    ops += [{"op": "wait0", "c": a, "ms": rng.choice([60, 150, 300])}] * rng.choice([1, 1, 2])
    if rng.random() < .5:
        ops += [dict(waiting(rng), c=b, op="wait")]
    ops += [{"op": "exit", "c": a, "n": 7}, {"op": "settle", "c": b, "ms": 3000}] if rng.random() < .5 else [{"op": "later", "c": a, "n": 9}, {"op": "waitlong", "c": a, "n": 0, "ms": 9000}]
    ops += [dict(waiting(rng), c=a), {"op": "wait", "c": b, "n": 0, "ms": 0}, dict(waiting(rng), c=b)]
    return ops + [{"op": "drop", "c": 1}, {"op": "drop", "c": 2}]


def settings(rng):
    """directories, sessions, arguments, environments, and children that cannot be set up"""
    c = rng.choice([1, 2])
    kind = rng.choice(["child", "popen", "popen"])
    args = [rng.choice(["", "x", "a b", "--", "=", "\x01\xff".encode("latin1").decode("latin1"), "-c"]) for _ in range(rng.randint(0, 3))]
    ops = [new(c, kind, cwd=rng.choice(["", "", "d", "missing"] if rng.random() < .6 else ["", "d"]), session=rng.choice([0, 0, 1]), args=args, passing=rng.choice([[], [], [20], [21, 20], [30], [1050, 21], [30, 1050, 20]]),
               close=rng.choice([0, 1, 1]), exe=rng.choice(["/proc/self/exe", "/proc/self/exe", "", "/nowhere/it/is" if rng.random() < .3 else ""]))]
    if kind == "popen" and rng.random() < .8:
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .2:
                ops.append({"op": "copyenv", "c": c})
            else:
                ops.append({"op": "env", "c": c, "key": codes(rng.choice(["A", "AB", "B", "ABC", "PATH", "a"])), "val": codes(rng.choice(["", "1", "x=y", "long value", "=", "A"]))})
    ops += std(c, rng.choice(["keep", "null"]), rng.choice(["keep", "null"]), rng.choice(["keep", "null", "out"]))
    ops.append({"op": "fork", "c": c, "missing": []})
    # setting streams after the start
    if rng.random() < .4:
        ops.append({"op": "std", "c": c, "which": rng.choice(["in", "out", "err"]), "x": rng.choice(["pipe", "null", "a"])})
    ops.append({"op": "report", "c": c})
    x = rng.random()
    bad = ops[0]["cwd"] == "missing" or ops[0]["exe"] == "/nowhere/it/is"
    if bad:
        ops.append({"op": "settle", "c": c, "ms": 3000})
    elif x < .3:
        ops.append({"op": "die", "c": c, "n": rng.choice([1, 2, 9, 10, 15, 13, 14])})
    elif x < .6:
        ops += [{"op": "ignore", "c": c, "n": 15}, {"op": "signal", "c": c, "n": 15, "how": rng.choice(["send", "terminate"])}, {"op": "settle", "c": c, "ms": 10},
                {"op": "poll", "c": c, "n": 0}, {"op": "signal", "c": c, "n": 9, "how": rng.choice(["send", "kill"])}, {"op": "settle", "c": c, "ms": 3000}]
    elif x < .8:
        ops += [{"op": "signal", "c": c, "n": 10, "how": "send"}, {"op": "settle", "c": c, "ms": 3000}]
    else:
        ops.append({"op": "exit", "c": c, "n": rng.choice([0, 1, 2, 71, 127, 128, 255])})
    ops += [dict(waiting(rng), c=c), dict(waiting(rng), c=c),
            {"op": "signal", "c": c, "n": rng.choice([0, 9, 15]), "how": "send"}, {"op": "drop", "c": c}]
    return ops


def run(c):
    c.build("d_child")
    rng = c.rng
    r = c.model("ChildFdMC", "ChildFdMC.cfg", "every redirection of the three streams, call by call in parent and child", workers=8)
    cases = []
    for q in r.emitted:
        for kind in ("child", "popen") if rng.random() < c.pick(.1, 1) else ("child",):
            if q["missing"] and kind == "popen":
                continue
            cases.append([new(1, kind, int(q["close"]), sorted(q["pass"]))] + std(1, q["in"], q["out"], q["err"]) + [{"op": "fork", "c": 1, "missing": sorted(q["missing"])}, {"op": "report", "c": 1},
                         {"op": "exit", "c": 1, "n": 5}, {"op": "wait", "c": 1, "n": 0}, {"op": "drop", "c": 1}])
    c.conform("d_child", "ChildTrace", [{"ops": x} for x in cases], name="redirections", shards=8, per_case=20)
    r = c.model("ChildMC", c.pick("ChildMC.cfg", "ChildMC5.cfg"), "the life of a child against the calls of its parent, in all orders", workers=8)
    seen = {str(h): h for h in r.emitted}
    hist = [fix_settle(life(rng, h)) for h in seen.values()]
    if not c.quick:
        c.model("ChildMC", "ChildMC6.cfg", "six steps", workers=8)
    c.conform("d_child", "ChildTrace", [{"ops": x} for x in hist], name="lives", shards=8, per_case=20)
    c.conform("d_child", "ChildTrace", [{"ops": data(rng)} for _ in range(c.pick(600, 6000))], name="data", shards=8, per_case=20)
    c.conform("d_child", "ChildTrace", [{"ops": settings(rng)} for _ in range(c.pick(800, 8000))], name="settings", shards=8, per_case=20)
    c.conform("d_child", "ChildTrace", [{"ops": others(rng)} for _ in range(c.pick(120, 1200))], name="others", shards=8, per_case=20)
    fmt = [0, 256, 512, 255 * 256, 9, 15, 11, 139, 6, 134, 1, 129, 127 * 256]
    c.conform("d_child", "ChildTrace", [{"ops": [{"op": "fmt", "raw": x} for x in fmt + [rng.randrange(256) * 256 for _ in range(20)]]}], name="status", shards=1, per_case=20)
