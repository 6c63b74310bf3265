"""Generation of directory trees and of operations on them."""
NAMES = ["a", "b", "c"]


def apath(rng, k=3):
    return [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 2, 3][:k + 2]))]


def content(rng, n=8):
    return [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, n]))]


def node(p, t, rng):
    return {"p": p, "t": t, "c": content(rng) if t == "file" else [], "m": rng.choice([0o644, 0o644, 0o600, 0o755, 0o444, 0o200, 0o666, 0o100]) if t == "file" else 0o777 if t == "link" else 0o755,
            "to": (apath(rng) if rng.random() < .97 else [rng.choice("xy") * rng.randint(60, 250) for _ in range(rng.randint(1, 3))]) if t == "link" else [], "ts": -1}


def tree(rng):
    out, dirs, used = [], [[]], set()
    for _ in range(rng.randint(0, 7)):
        d = rng.choice(dirs)
        p = d + [rng.choice(NAMES)]
        if tuple(p) in used or len(p) > 3:
            continue
        used.add(tuple(p))
        t = rng.choice(["dir", "dir", "file", "file", "link"])
        out.append(node(p, t, rng))
        if t == "dir":
            dirs.append(p)
    return {"op": "tree", "nodes": out}


def step(rng):
    s = rng.choice(["read", "readall", "readthrow", "write", "writeall", "writethrow", "seek", "end", "pread", "pwrite", "trunc", "size", "writeall", "readall", "seek"])
    r = {"s": s, "n": rng.choice([0, 1, 2, 3, 5, 12])}
    if s in ("write", "writeall", "writethrow", "pwrite"):
        r["d"] = content(rng, 7)
    if s in ("pread", "pwrite"):
        r["at"] = rng.choice([0, 0, 1, 3, 9])
    return r


def lock(rng):
    return {"h": rng.randint(1, 3), "s": rng.choice(["set", "set", "get", "wait", "drop"] if rng.random() < .9 else ["drop"]), "t": rng.choice(["r", "r", "w", "u"]),
            "a": rng.randint(0, 9), "n": rng.choice([0, 1, 2, 5, 10]), "signals": rng.choice([0, 0, 1, 3]), "retry": rng.random() < .5}


def op(rng):
    k = rng.random()
    p = apath(rng)
    how = rng.randint(0, 5)
    r = {"p": p, "how": how}
    if k < .12:
        r.update(op=rng.choice(["write", "awrite", "awrite"]), c=content(rng), m=rng.choice([0o777, 0o666, 0o644, 0o600, 0o440]), most=rng.choice([0, 0, 1, 3]))
    elif k < .2:
        r.update(op="read", how=how % 3, most=rng.choice([0, 0, 1, 3]))
    elif k < .3:
        r.update(op=rng.choice(["unlink", "unlink_ifexists"]), how=how % 3)
    elif k < .4:
        r.update(op=rng.choice(["rename", "rename_ifexists"]), q=apath(rng))
    elif k < .5:
        r.update(op=rng.choice(["mkdir_ifmissing", "makedirs"]))
    elif k < .58:
        r.update(op=rng.choice(["rmdir", "rmtree", "rmtree_ifexists"]), how=how % 2, untyped=rng.random() < .4)
    elif k < .61:
        r.update(op="touch", ts=rng.choice([0, 1, 1000000000, 2000000000, rng.randint(0, 2**31 - 1)]))
    elif k < .68:
        r.update(op="ask", how=how % 3)
    elif k < .74:
        r.update(op="list", untyped=rng.random() < .5)
        if rng.random() < .2:
            r["p"] = []
    elif k < .76:
        r = {"op": "which", "dirs": [apath(rng, 1) for _ in range(rng.randint(1, 3))], "n": rng.choice(NAMES), "how": how}
    elif k < .84:
        r.update(op="at", what=rng.choice(["mkdirat", "unlinkat", "rmdirat", "symlinkat", "readlinkat", "fstatat", "lstatat", "fstatat_ifexists", "lstatat_ifexists", "openat_ifexists", "faccessat"]), n=rng.choice(NAMES), to=apath(rng))
        if rng.random() < .3:
            r["p"] = []
    elif k < .92:
        r.update(op="io", most=rng.choice([0, 0, 1, 2, 5]), steps=[step(rng) for _ in range(rng.randint(1, 7))])
    elif k < .935:
        r.update(op="times", d=content(rng))
    elif k < .945:
        r.update(op="mmap")
    elif k < .965:
        f = lambda q: rng.random() < q
        r.update(op="open", how=how % 5, acc=rng.choice(["r", "w", "rw"]), creat=f(.6), excl=f(.25), trunc=f(.3), nofollow=f(.25), append=f(.3), m=rng.choice([0o666, 0o600, 0o644]), d=content(rng))
        r["trunc"] = r["trunc"] and r["acc"] != "r"
        r["excl"] = r["excl"] and r["creat"]
    elif k < .975:
        r.update(op="locks", steps=[lock(rng) for _ in range(rng.randint(1, 9))])
    elif k < .98:
        r.update(op="names", p=[rng.choice(["a", "b", "..", ".", ".x"]) for _ in range(rng.randint(1, 5))], suf=rng.choice(["", ".x", "x", "..", "/x"]))
    elif k < .99:
        s = [0, 1, 1000000000]
        r = {"op": "elapsed", "b": [rng.choice(s), rng.choice([0, 1, 999999999, 500000000])], "u": [rng.choice(s), rng.choice([0, 1, 999999999, 500000000])]}
    else:
        r = {"op": "limit", "n": rng.choice([0, 1024, 4096]), "then": rng.choice([0, 1, 2048])}
    if r.get("op") == "locks":
        for s in r["steps"]:
            if s["s"] == "get" and s["t"] == "u":
                s["t"] = "w"
    return r


def fault(rng, o):
    if o["op"] in ("write", "awrite", "read", "rmtree", "rmtree_ifexists", "times"):
        o["fault"] = {"n": rng.randint(1, 8), "how": rng.choice(["stop", "stop", "EIO", "ENOSPC", "EINTR", "EACCES"])}
    return o


def temps(rng):
    """A life of temporary files and directories among other operations."""
    ops, ids = [], []
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        if k < .4 or not ids:
            i = "t%d" % len(ids)
            ids.append(i)
            p = apath(rng)[:-1] + [rng.choice(["t", "a", "tmp-"])]
            r = {"op": "mktemp", "id": i, "p": p, "how": rng.randint(0, 2), "kind": rng.choice(["file", "dir"]), "c": content(rng), "nodes": []}
            if r["kind"] == "dir":
                r["nodes"] = [dict(node(["x"], "file", rng)), dict(node(["y"], "dir", rng)), dict(node(["y", "z"], "file", rng)), dict(node(["l"], "link", rng))][:rng.randint(0, 4)]
            ops.append(r)
        elif k < .8:
            ops.append({"op": "temp", "id": rng.choice(ids), "what": rng.choice(["keep", "unlink", "drop", "drop"]), "untyped": rng.random() < .4})
        else:
            ops.append(op(rng))
    return ops
