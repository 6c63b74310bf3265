"""Common machinery of the checks: running TLC, running drivers, validating
recorded traces against the specification, evidence and verdicts.

A check never decides anything in Python: the verdict on every recorded
behaviour comes from TLC evaluating the TLA+ specification.  Python only
produces inputs (by asking TLC to enumerate behaviours of the model, or from a
seeded generator), runs the real code on them, and reports what TLC said.
"""
import json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import build as B

VERIF = B.VERIF
REPO = B.REPO
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known-findings.txt")
CLASSES = os.path.join(B.BUILD, "classes")


def java_classes():
    """The Java side of spec/Real64.tla (binary64 arithmetic for TLC)."""
    src = os.path.join(SPEC, "java/tlc2/module/Real64.java")
    out = os.path.join(CLASSES, "tlc2/module/Real64.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    p = subprocess.run(["javac", "-cp", JARS, "-d", CLASSES, src], capture_output=True, text=True)
    if p.returncode:
        raise Infra("javac: " + p.stdout + p.stderr)

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0",
    "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0:halt_on_error=1",
}


class Infra(Exception):
    """Something outside the code under test failed: no verdict."""


def codes(s):
    """str or bytes -> list of character codes (how strings are given to TLA+)."""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)


def text(c):
    return bytes(c).decode("latin-1")


class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.rejects = []      # (case, k)
        self.emitted = []      # JSON values printed with EMIT
        self.out = ""
        self.rc = None
        self.done = None


class Check:
    def __init__(self, pid, tier, seed=None):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        java_classes()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.model_runs = []
        self.samples = []
        self.violations = []
        self.known_seen = []
        self.notes = {}
        self.drivers = {}
        self.known = load_known(pid)
        self.deadline = self.t0 + (760 if tier == "quick" else 3300)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    # -- building -----------------------------------------------------------
    def build(self, *drivers, san=True):
        try:
            d = B.build(list(drivers), san)
        except B.BuildError as e:
            raise Infra("the harness does not build:\n" + str(e))
        self.drivers.update(d)

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, extra=(), heap="3g", timeout=None, name=None):
        name = name or cfg.replace(".cfg", "")
        meta = os.path.join(self.work, "tlc-" + name)
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m",
               "-cp", CLASSES + ":" + JARS + ":" + SPEC, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-lncheck", "final",
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        timeout = timeout or max(60, self.deadline - time.time())
        logf = os.path.join(self.work, name + ".tlc.log")
        with open(logf, "w") as lf:
            try:
                p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise Infra(f"TLC ran out of time on {cfg}")
        shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult()
        r.rc = rc
        r.out = open(logf, errors="replace").read()
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", r.out):
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        if r.generated == 0:
            m = re.search(r"The number of states generated: (\d+)", r.out)
            if m:
                r.generated = r.distinct = int(m.group(1))
        for line in r.out.splitlines():
            if line.startswith('"@R '):
                f = line.strip().strip('"').split(" ")
                r.rejects.append((int(f[1]), int(f[2])))
            elif line.startswith('"@D '):
                r.done = int(line.strip().strip('"').split(" ")[1])
            elif line.startswith('"@E '):
                # a TLA+ string literal: undo TLC's quoting
                body = line.strip()[1:-1][3:]
                r.emitted.append(json.loads(json.loads('"' + body + '"')))
        return r

    def model(self, module, cfg, what, workers=8, extra=(), env=None, heap="6g", simulate=False, timeout=None):
        """Model-checks a design configuration; its invariants must hold (an
        error here means the specification is wrong, not the code)."""
        r = self.tlc(module, cfg, env=env, workers=workers, extra=extra, heap=heap, timeout=timeout)
        if r.rc != 0:
            raise Infra(f"model {cfg} did not check (rc {r.rc}):\n" + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.model_runs.append({"cfg": cfg, "what": what, "distinct_states": r.distinct,
                                "generated": r.generated, "behaviours_emitted": len(r.emitted)})
        return r

    @staticmethod
    def shards(cases, one=False):
        return 1 if one else min(8, max(1, len(cases) // 4))

    # -- running the code ---------------------------------------------------
    def run(self, driver, cases, per_case=60, env=None, cwd=None, args=(), one=False):
        """cases: list of {"ops": [...]}.  Returns the recorded trace: a list
        of lists of records, one list per case.  A crash, an abort or a hang is
        a recorded outcome of the operation it happened in."""
        path = self.drivers[driver]
        traces = [None] * len(cases)
        shards = self.shards(cases, one)
        idx = [list(range(s, len(cases), shards)) for s in range(shards)]

        def work(s):
            todo = idx[s]
            pos = hangs = deaths = 0
            wd = os.path.join(cwd or self.work, f"run-{driver}-{s}")
            while pos < len(todo):
                shutil.rmtree(wd, ignore_errors=True)
                os.makedirs(wd)
                inp = os.path.join(self.work, f"{driver}-{s}.in.ndjson")
                outp = os.path.join(self.work, f"{driver}-{s}.out.ndjson")
                with open(inp, "w") as f:
                    for ci in todo[pos:]:
                        f.write(json.dumps({"case": ci, "ops": cases[ci]["ops"]}) + "\n")
                if os.path.exists(outp):
                    os.unlink(outp)
                e = dict(os.environ)
                e.update(ASAN_ENV)
                e["TZ"] = "UTC"
                e["DRV_ALARM"] = str(per_case)
                e.update(env or {})
                errp = os.path.join(self.work, f"{driver}-{s}.err")
                with open(errp, "w") as ef:
                    p = subprocess.run([path, inp, outp] + list(args), stdout=ef, stderr=ef, env=e, cwd=wd)
                recs = {}
                begun = set()
                if os.path.exists(outp):
                    for line in open(outp, errors="replace"):
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if r["op"] == "begin":
                            begun.add(r["case"])
                            recs.setdefault(r["case"], [])
                        else:
                            recs.setdefault(r["case"], []).append(r)
                if p.returncode == 0:
                    for ci in todo[pos:]:
                        traces[ci] = recs.get(ci, [])
                    break
                # died: the last case begun is the one that killed it
                last = None
                for n, ci in enumerate(todo[pos:]):
                    if ci in begun:
                        last = n
                if last is None:
                    raise Infra(f"{driver} did not start (rc {p.returncode}): " + open(errp).read()[-2000:])
                for ci in todo[pos:pos + last]:
                    traces[ci] = recs.get(ci, [])
                ci = todo[pos + last]
                got = recs.get(ci, [])
                ops = cases[ci]["ops"]
                if len(got) < len(ops):
                    why = {-signal.SIGALRM: "hang"}.get(p.returncode, f"rc{p.returncode}")
                    op = dict(ops[len(got)])
                    tail = [l.strip() for l in open(errp, errors="replace").read().splitlines()
                            if "ERROR:" in l or "runtime error" in l or "terminate" in l or "what()" in l or "Assertion" in l]
                    got = got + [{"case": ci, "k": len(got), "op": op.pop("op"), **op,
                                  "out": {"crash": why}, "_err": tail[:4]}]
                traces[ci] = got
                pos += last + 1
                deaths += 1
                hangs += p.returncode == -signal.SIGALRM
                if hangs >= 2 or deaths >= 15:
                    # every death is a violation already: the verdict will not change, the time would run out
                    for ci in todo[pos:]:
                        traces[ci] = []
                    break
            shutil.rmtree(wd, ignore_errors=True)

        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(work, range(shards)))
        return traces

    # -- validation ---------------------------------------------------------
    def _validate(self, module, cfg, traces, cases, name, shards, heap, env=None):
        todo = [ci for ci in range(len(traces))]
        shards = max(1, min(shards, len(todo)))
        parts = [todo[s::shards] for s in range(shards)]
        rejects = []

        def one(s):
            f = os.path.join(self.work, f"{name}-{s}.trace.ndjson")
            n = 0
            with open(f, "w") as fh:
                for ci in parts[s]:
                    fh.write(json.dumps({"op": "begin", "case": ci, "k": -1,
                                         "setup": cases[ci].get("setup", {})}) + "\n")
                    n += 1
                    for k, r in enumerate(traces[ci]):
                        r = {a: b for a, b in r.items() if not a.startswith("_")}
                        r["k"] = k
                        fh.write(json.dumps(r) + "\n")
                        n += 1
            e = {"TRACE": f}
            e.update(env or {})
            r = self.tlc(module, cfg, env=e, workers=1, heap=heap, name=f"{name}-{s}")
            if r.done != n or r.rc != 0:
                raise Infra(f"TLC did not finish validating {name} (rc {r.rc}, {r.done} of {n} events):\n" + r.out[-3000:])
            return r

        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        for r in rs:
            rejects += r.rejects
        return rejects, rs

    def conform(self, driver, module, cases, cfg=None, name=None, shards=None, heap="2g",
                per_case=60, env=None, tlcenv=None, args=(), sample=2, describe=None):
        """Runs the real code on `cases`, has TLC accept or reject every
        recorded behaviour; a rejection that repeats is a violation."""
        if not cases:
            return []
        cfg = cfg or "Trace.cfg"
        name = name or f"{module}-{len(self.model_runs)}-{self.validated}"
        traces = self.run(driver, cases, per_case=per_case, env=env, args=args)
        nev = sum(len(t) for t in traces)
        if shards is None:
            shards = 1 if nev < 400 else min(8, 1 + nev // 400)
        rejects, rs = self._validate(module, cfg, traces, cases, name, shards, heap, tlcenv)
        self.validated += len(traces)
        self.events += nev
        for r in rs:
            self.states += r.distinct
            self.transitions += r.generated
        step = max(1, len(traces) // sample)
        for t in traces[::step][:sample]:
            self.samples.append({"spec": module, "trace": shorten(t, 6)})
        seen = set()
        for ci, k in sorted(rejects):
            if ci in seen:
                continue
            seen.add(ci)
            if len(seen) > 4 or len(self.violations) > 2:
                break
            # repeat it: alone, and then after the cases that came before it in the same process
            shard = list(range(ci % self.shards(cases), ci, self.shards(cases)))
            good = False
            for back in (0, 1, 2, 4, 8, 16, 64, 256, 100000):
                if back and back // 2 > len(shard):
                    break
                group = [cases[j] for j in shard[len(shard) - min(back, len(shard)):]] + [cases[ci]]
                again = self.run(driver, group, per_case=per_case, env=env, args=args, one=True)
                rej2, _ = self._validate(module, cfg, again[-1:], [cases[ci]], name + "-again", 1, heap, tlcenv)
                if rej2:
                    k2 = rej2[0][1]
                    rec = again[-1][k2] if 0 <= k2 < len(again[-1]) else {}
                    self.reject(driver, module, cfg, cases[ci], rec, k2, args, env, group[:-1])
                    good = True
                    break
            if not good:
                print(f"note: case {ci} of {name} was rejected once and accepted on repetition: not reported")
                if 0 <= k < len(traces[ci]):
                    print("   observed: " + json.dumps(traces[ci][k])[:1000])
        return traces

    def reject(self, driver, module, cfg, case, rec, k, args=(), env=None, before=()):
        key = case.get("key") or json.dumps(case["ops"][k] if 0 <= k < len(case["ops"]) else case["ops"], sort_keys=True)
        for kf in self.known:
            if kf["match"] and kf["match"] in key:
                self.known_seen.append(kf)
                return
        n = len(self.violations)
        path = os.path.join(self.work, f"replay-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "driver": driver, "module": module, "cfg": cfg, "args": list(args),
                       "env": env or {}, "before": list(before), "case": case, "step": k, "observed": rec}, f, indent=1)
        self.violations.append(path)
        print(f"rejected by {module}: step {k} of a behaviour of {len(case['ops'])} operations")
        print(f"   observed: {json.dumps(shorten(rec))[:700]}")

    # -- verdict ------------------------------------------------------------
    def finish(self, assumptions=(), extra=None):
        for kf in self.known:
            if kf["match"] and kf not in self.known_seen:
                pass
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "events_validated": self.events,
               "model_runs": self.model_runs,
               "samples": self.samples[:12]}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f)
        seen = []
        for kf in self.known_seen:
            if kf not in seen:
                seen.append(kf)
                print(f"KNOWN-FINDING: property={self.pid} {kf['what']}")
        for v in self.violations:
            print(f"VIOLATION property={self.pid} replay={v}")
        if self.violations:
            return 1
        print(f"ok property={self.pid} tier={self.tier} states={self.states} traces={self.validated} "
              f"events={self.events} wall={time.time() - self.t0:.1f}s")
        return 0


def shorten(x, n=48):
    if isinstance(x, list):
        if len(x) > 2 and all(type(y) is int and 32 <= y < 127 for y in x):
            return text(x)
        if len(x) > n:
            return [shorten(y, n) for y in x[:n]] + [f"... {len(x) - n} more"]
        return [shorten(y, n) for y in x]
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def load_known(pid):
    """known: property=<id> match=<json substring> | <what fails>
       fixed: property=<id> <commit> <what failed>        (suppresses nothing)"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.+?) \| (.+)$", line.strip())
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res
