----------------------------- MODULE ChildTrace -----------------------------
(* What real parents and children were seen to do, two children at most. *)
EXTENDS Child, TraceBase

Nothing == [st |-> "none", kind |-> "", in |-> "keep", out |-> "keep", err |-> "keep", close |-> 1, pass |-> {}, cwd |-> "", session |-> 0, args |-> <<>>, exe |-> "",
            env |-> <<>>, missing |-> {}, raw |-> 0, ignores |-> FALSE, ends |-> <<0, 0, 0>>, q |-> <<>>, qo |-> <<>>, qe |-> <<>>]
MyStarts(r) == {[k |-> <<Nothing, Nothing>>, a |-> <<>>, b |-> <<>>]}
Keep(s, ok) == IF ok THEN {s} ELSE {}
B(x) == IF x THEN 1 ELSE 0
Set(q) == {q[j] : j \in DOMAIN q}
\* the environment of the parent: A=1, AB=x=y, PATH=/bin
ParentEnv == << <<<<65>>, <<49>>>>, <<<<65, 66>>, <<120, 61, 121>>>>, <<<<80, 65, 84, 72>>, <<47, 98, 105, 110>>>> >>
EnvOf(o) == IF o.kind = "popen" /\ o.env # <<>> THEN o.env ELSE ParentEnv
SetUpFails(o) == o.cwd = "missing" \/ (o.kind = "popen" /\ o.exe = "/nowhere/it/is")
OsErr == 71
State(o, r) == /\ r.out.term = B(o.st = "gone") /\ r.out.started = B(o.st # "new")
               /\ o.st = "gone" => /\ r.out.raw % 128 = o.raw % 128 /\ r.out.raw \div 256 = o.raw \div 256
                                   /\ (o.raw % 128 = 0 => r.out.rc = o.raw \div 256)
Ends(o) == <<B(o.in = "pipe"), B(o.out = "pipe"), B(o.err = "pipe")>>
\* where the bytes written to 1 and 2 go
Target(o, fd) == Intended(o.in, o.out, o.err)[fd + 1]
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Left(q, n) == SubSeq(q, n + 1, Len(q))
\* only this child can still write to its pipes
Over(o, pipe) == o.st \in {"dead", "gone"}

More(o) == LET e == Ends(o) IN e[1] + e[2] + e[3]

MyStep(s, r) ==
  IF r.op = "fmt" THEN
     Keep(s, ~("exc" \in DOMAIN r.out) /\ r.out.text = (IF r.raw % 128 = 0 THEN (IF r.raw = 0 THEN "terminated successfully" ELSE "exited with code " \o ToString(r.raw \div 256))
                            ELSE "was interrupted, killed by signal " \o ToString(r.raw % 128) \o (IF r.raw % 256 >= 128 THEN " (core dumped)" ELSE "")))
  ELSE IF r.op = "cat" THEN Keep(s, r.out.bytes = IF r.f = "a" THEN s.a ELSE s.b)
  ELSE
  LET o == s.k[r.c] fail == "exc" \in DOMAIN r.out
      Put(n) == [s EXCEPT !.k[r.c] = n]
      To(n, ok) == IF ~fail /\ ok THEN {Put(n)} ELSE {} IN
  CASE r.op = "new" -> To([Nothing EXCEPT !.st = "new", !.kind = r.kind, !.close = r.close, !.pass = Set(r.pass), !.cwd = r.cwd, !.session = r.session, !.args = r.args, !.exe = r.exe],
                          r.out.started = 0 /\ r.out.term = 0)
    [] o.st = "none" -> {s}
    [] r.op = "std" -> IF o.st # "new" THEN Keep(s, fail)
                       ELSE To(CASE r.which = "in" -> [o EXCEPT !.in = r.x] [] r.which = "out" -> [o EXCEPT !.out = r.x] [] r.which = "err" -> [o EXCEPT !.err = r.x], TRUE)
    [] r.op = "env" -> LET e == SetEnv(o.env, r.key, r.val) IN To([o EXCEPT !.env = e], r.out.env = e)
    [] r.op = "copyenv" -> LET e == o.env \o ParentEnv IN To([o EXCEPT !.env = e], r.out.env = e)
    [] r.op = "fork" ->
         IF fail THEN {}
         ELSE IF SetUpFails(o) THEN To([o EXCEPT !.st = "dead", !.raw = Exited(OsErr), !.ends = Ends(o)], r.out.up = 0 /\ r.out.started = 1 /\ r.out.more = More(o))
         ELSE To([o EXCEPT !.st = "alive", !.ends = Ends(o), !.missing = Set(r.missing)], r.out.up = 1 /\ r.out.more = More(o) /\ r.out.started = 1 /\ r.out.term = 0 /\ r.out.ends = Ends(o))
    [] r.op = "report" ->
         IF o.st # "alive" THEN {s}
         ELSE Keep(s,
           /\ ~fail
           /\ \E w \in {Intended(o.in, o.out, o.err)} : \A fd \in 0..2 :
                IF fd \in o.missing /\ <<o.in, o.out, o.err>>[fd + 1] # "pipe" THEN (fd = 0 => "none" \in Set(r.out.std[fd + 1])) ELSE w[fd + 1] \in Set(r.out.std[fd + 1])
           /\ IF o.close = 1 \/ o.pass # {} THEN Set(r.out.open) = o.pass ELSE {20, 21, 1050} \subseteq Set(r.out.open)
           \* the ends of its pipes are on its streams alone, whatever else it keeps
           /\ (o.in = "pipe" => r.out.held[1] = 0) /\ (o.out = "pipe" => r.out.held[2] = 0) /\ (o.err = "pipe" => r.out.held[3] = 0)
           /\ r.out.cwd = (IF o.cwd = "" THEN "same" ELSE o.cwd) /\ (o.session = 1 <=> r.out.leader = 1)
           /\ r.out.args = o.args /\ r.out.env = EnvOf(o))
    [] r.op \in {"exit", "die"} -> IF o.st # "alive" THEN {s} ELSE To([o EXCEPT !.st = "dead", !.raw = IF r.op = "exit" THEN Exited(r.n) ELSE Killed(r.n)], r.out.dead = 1)
    [] r.op = "later" -> IF o.st # "alive" THEN {s} ELSE To([o EXCEPT !.st = "due", !.raw = Exited(r.n)], r.out.heard = 1)
    [] r.op = "ignore" -> IF o.st # "alive" THEN {s} ELSE To([o EXCEPT !.ignores = TRUE], r.out.heard = 1)
    [] r.op = "settle" -> IF o.st = "due" THEN To([o EXCEPT !.st = "dead"], r.out.dead = 1) ELSE To(o, r.out.dead = B(o.st \in {"dead", "gone"}))
    \* ---- data
    [] r.op = "feed" -> To([o EXCEPT !.q = @ \o r.bytes], r.out.n = Len(r.bytes))
    [] r.op = "close" -> LET e == [o.ends EXCEPT ![IF r.which = "in" THEN 1 ELSE IF r.which = "out" THEN 2 ELSE 3] = 0] IN To([o EXCEPT !.ends = e], r.out.ends = e)
    [] r.op = "read" -> To([o EXCEPT !.q = Left(@, r.n)], r.out.bytes = Take(o.q, r.n) /\ (r.out.end = 1) = (Len(o.q) < r.n))
    [] r.op = "write" ->
         LET t == Target(o, r.fd) n == [o EXCEPT !.qo = IF t = "o" THEN @ \o r.bytes ELSE @, !.qe = IF t = "e" THEN @ \o r.bytes ELSE @] IN
         IF fail THEN {} ELSE IF r.out.n # Len(r.bytes) THEN {} ELSE {[s EXCEPT !.k[r.c] = n, !.a = IF t = "a" THEN @ \o r.bytes ELSE @, !.b = IF t = "b" THEN @ \o r.bytes ELSE @]}
    [] r.op = "drain" -> LET q == IF r.which = "out" THEN o.qo ELSE o.qe IN
         IF r.which = "out" THEN To([o EXCEPT !.qo = Left(@, r.n)], r.out.bytes = Take(q, r.n) /\ (r.out.end = 1) = (Len(q) < r.n))
         ELSE To([o EXCEPT !.qe = Left(@, r.n)], r.out.bytes = Take(q, r.n) /\ (r.out.end = 1) = (Len(q) < r.n))
    [] r.op = "drop" -> IF fail THEN {} ELSE IF r.out.left # 0 THEN {} ELSE {Put(Nothing)}
    \* ---- waiting
    [] r.op \in {"poll", "wait", "wait0", "waitlong"} ->
         IF fail THEN {}
         ELSE IF o.st = "new" THEN Keep(s, r.out.ret = -1 /\ State(o, r))
         \* a short time can be over before a slow child ends
         ELSE IF o.st = "due" /\ r.op = "waitlong" /\ r.ms < 5000 /\ r.out.ret = 0 THEN Keep(s, r.out.same = 1 /\ State(o, r) /\ r.out.whole = 1)
         ELSE LET over == o.st \in {"dead", "gone"} \/ (o.st = "due" /\ r.op \in {"wait", "waitlong"})
                  n == IF over THEN [o EXCEPT !.st = "gone"] ELSE o IN
              IF /\ r.out.same = 1 /\ State(n, r)
                 /\ IF r.op = "wait" THEN r.out.ret >= 0 /\ (o.raw % 128 = 0 => r.out.ret = o.raw \div 256) ELSE r.out.ret = B(over) /\ (r.op \in {"wait0", "waitlong"} /\ ~over => r.out.whole = 1)
              THEN {Put(n)} ELSE {}
    [] r.op = "signal" ->
         IF fail THEN {}
         ELSE IF o.st \in {"new", "gone"} THEN Keep(s, r.out.sent = <<>> /\ State(o, r) /\ (o.st = "new" => r.out.err = 1))
         ELSE LET sig == IF r.how = "terminate" THEN Term ELSE IF r.how = "kill" THEN Kill ELSE r.n IN
              IF r.out.err = 0 /\ r.out.sent = << <<r.c, sig>> >> /\ State(o, r)
              THEN {Put(IF Alive(o.st) /\ sig \in Deadly /\ ~(sig = Term /\ o.ignores) THEN [o EXCEPT !.st = "dead", !.raw = Killed(sig)] ELSE o)} ELSE {}
    [] OTHER -> {}
=============================================================================
