"""U02: the helpers on files."""
import trees


def run(c):
    c.build("d_sys")
    r = c.model("DirTreeMC", "DirTreeMC.cfg", "all pairs of operations on small trees; writing atomically and removing trees stopped after any call", workers=8)
    c.model("LocksMC", "LocksMC.cfg", "three open files locking two bytes in all ways", workers=4)
    if not c.quick:
        c.model("DirTreeMC", "DirTreeMC3.cfg", "three operations", workers=8)
    # the trees of the model
    F = lambda p, c_, m: {"p": p, "t": "file", "c": c_, "m": m, "to": [], "ts": -1}
    D = lambda p: {"p": p, "t": "dir", "c": [], "m": 0o755, "to": [], "ts": -1}
    L = lambda p, to: {"p": p, "t": "link", "c": [], "m": 0o777, "to": to, "ts": -1}
    first = [[D(["a"]), F(["a", "b"], [1, 2], 0o644), F(["b"], [3], 0o600)], [D(["a"]), L(["b"], ["a"]), L(["a", "b"], ["b"])],
             [L(["a"], ["c"]), D(["b"]), D(["b", "a"]), F(["b", "a", "c"], [], 0o644)], [L(["a"], ["a"]), F(["b"], [5, 6, 7], 0o444)]]
    rng = c.rng
    cases = []
    for x in r.emitted:
        ops = [{"op": "tree", "nodes": first[x["first"] - 1]}] + [dict(o) for o in x["hist"]]
        ops += [{"op": "ask", "p": p} for p in (["a"], ["b", "a"])] + [{"op": "list", "p": []}]
        cases.append(ops)
    for k in range(c.pick(6000, 60000)):
        ops = [trees.tree(rng)]
        if k % 4 == 0:
            ops += trees.temps(rng)
        else:
            for _ in range(rng.randint(2, 8)):
                o = trees.op(rng)
                if k % 4 == 1:
                    o = trees.fault(rng, o)
                ops.append(o)
        cases.append(ops)
    # every call stopped or failed, for every kind of target
    for o in ("awrite", "write", "rmtree"):
        for how in ("stop", "EIO", "ENOSPC", "EINTR"):
            for n in range(1, 10):
                for p in (["a"], ["b"], ["a", "b"], ["c"], ["a", "c"]):
                    for t in (0, 2):
                        cases.append([{"op": "tree", "nodes": first[t]}, {"op": o, "p": p, "c": [7] * 6, "m": 0o664, "most": rng.choice([0, 2]), "how": n % 3 if o != "rmtree" else 0, "fault": {"n": n, "how": how}}, {"op": "list", "p": []}])
    for how in ("stop", "EIO", "EACCES"):
        for n in range(1, 6):
            for p in (["b"], ["a", "b"], ["c"]):
                cases.append([{"op": "tree", "nodes": first[0]}, {"op": "times", "p": p, "d": [7] * 3, "most": rng.choice([0, 1]), "fault": {"n": n, "how": how}}, {"op": "list", "p": []}])
    # links of all lengths
    for k in range(60, 255, 3):
        cases.append([{"op": "tree", "nodes": first[0]}] + [o for n in range(k, k + 3) for o in ({"op": "at", "what": "symlinkat", "p": ["a"], "n": "c", "to": ["x" * n]},
                     {"op": "at", "what": "readlinkat", "p": ["a"], "n": "c", "to": []}, {"op": "unlink", "p": ["a", "c"]})])
    cases.append([{"op": "tree", "nodes": first[0]}, {"op": "at", "what": "symlinkat", "p": ["a"], "n": "c", "to": ["x" * 250] * 5}, {"op": "at", "what": "readlinkat", "p": ["a"], "n": "c", "to": []}])
    big = [{"ops": sum(cases[k:k + 8], [])} for k in range(0, len(cases), 8)]
    c.conform("d_sys", "DirTreeTrace", big, name="trees", shards=8, per_case=20)
