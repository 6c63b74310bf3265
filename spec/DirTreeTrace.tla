---------------------------- MODULE DirTreeTrace ----------------------------
EXTENDS DirTree, TraceBase
\* state: the tree, and the temporary files and directories there are, by number
MyStarts(r) == {[fs |-> <<>>, tmp |-> <<>>]}
Stopped == <<-7>>
NodeOf(n) == [t |-> n.t, c |-> n.c, m |-> n.m, to |-> n.to, ts |-> n.ts]
TreeOf(ns) == [q \in {ns[k].p : k \in DOMAIN ns} |-> NodeOf(ns[CHOOSE k \in DOMAIN ns : ns[k].p = q])]
\* times are known to the specification for some only
Untimed(fs) == [q \in DOMAIN fs |-> [fs[q] EXCEPT !.ts = -1]]
Seen(fs, o) == LET t == TreeOf(o.tree) IN
    /\ Untimed(t) = Untimed(fs)
    /\ \A q \in DOMAIN fs : fs[q].ts >= 0 => t[q].ts = fs[q].ts
Strict(d) == IF d.v = Gone THEN [d EXCEPT !.v = Failed] ELSE d
Has(r, x) == x \in DOMAIN r
To(s, fs) == [s EXCEPT !.fs = fs]
\* an operation that must give this
Gives(s, r, d) == IF r.out.v = d.v /\ Seen(d.fs, r.out) THEN {To(s, d.fs)} ELSE {}
Fails(r) == r.out.v = Failed \/ r.out.v = Stopped
\* what was done, or what an interrupted operation may leave
Faulty(s, r, d, Part(_)) ==
    IF ~Has(r, "fault") \/ ~Fails(r) THEN Gives(s, r, d)
    ELSE LET t == TreeOf(r.out.tree) IN IF Part(Untimed(t)) THEN {To(s, [q \in DOMAIN t |-> IF q \in DOMAIN s.fs /\ Untimed(t)[q] = Untimed(s.fs)[q] /\ t[q].ts = s.fs[q].ts THEN s.fs[q] ELSE Untimed(t)[q]])} ELSE {}

Yes(b) == IF b THEN "yes" ELSE "no"
\* answers of questions by type: missing is no, what cannot be reached is an error
ByType(fs, x, ok) == IF x.r = "is" THEN Yes(ok) ELSE IF x.r = "bad" THEN "error" ELSE "no"
AskOK(fs, r) ==
    LET o == r.out
        x == At(fs, r.p) y == Here(fs, r.p)
        n == IF x.r = "is" THEN Node(fs, x) ELSE Dir
    IN /\ o.stat = (IF x.r = "is" THEN n.t ELSE IF x.r = "bad" THEN "error" ELSE "no")
       /\ o.isdir = ByType(fs, x, n.t = "dir") /\ o.isreg = ByType(fs, x, n.t = "file")
       /\ o.isblk = ByType(fs, x, FALSE) /\ o.ischr = ByType(fs, x, FALSE) /\ o.isfifo = ByType(fs, x, FALSE) /\ o.issock = ByType(fs, x, FALSE)
       /\ o.islnk = ByType(fs, y, y.r = "is" /\ Node(fs, y).t = "link")
       /\ (IF x.r = "bad" THEN o.exists \in {"no", "error"} ELSE o.exists = Yes(x.r = "is"))
       /\ o.f = Yes(x.r = "is") /\ o.r = Yes(x.r = "is" /\ Readable(n)) /\ o.w = Yes(x.r = "is" /\ Writable(n)) /\ o.x = Yes(x.r = "is" /\ Executable(n))
       /\ (IF x.r # "is" THEN o.size = Failed /\ o.time = Failed /\ o.inode = Failed ELSE
             /\ (n.t = "file" => o.size = Num(Len(n.c)))
             /\ (IF n.ts >= 0 THEN o.time = Num(n.ts) ELSE o.time # Failed)
             /\ o.inode = Num(1))
       /\ (IF Missing(x) THEN o.size0 = Num(77) /\ o.time0 = Num(77) /\ o.inode0 = Num(77)
           ELSE o.size0 = o.size /\ o.time0 = o.time /\ o.inode0 = o.inode)

ListOK(fs, r) ==
    LET e == Entries(fs, r.p) IN
    /\ r.out.v = e.v
    /\ e.v = Done => {[n |-> r.out.es[k].n, t |-> r.out.es[k].t, opens |-> r.out.es[k].opens] : k \in DOMAIN r.out.es} = e.es
                     /\ Len(r.out.es) = Cardinality(e.es)

TypeAt(fs, x) == IF x.r = "is" THEN Node(fs, x).t ELSE IF x.r = "bad" THEN "error" ELSE "no"
AtStep(s, r) ==
    LET fs == s.fs
        d == At(fs, r.p)
        p == Append(r.p, r.n)
        o == r.out
        Type(x, if) == IF o.t = (IF x.r = "is" THEN Node(fs, x).t ELSE IF Missing(x) /\ if THEN "no" ELSE "error") /\ Seen(fs, o) THEN {s} ELSE {}
    IN IF ~IsA(fs, d, "dir") THEN (IF o.v = Failed /\ Seen(fs, o) THEN {s} ELSE {})
       ELSE CASE r.what = "mkdirat" -> Gives(s, r, IF Here(fs, p).r = "no" THEN Mkdir(fs, p) ELSE Err(fs))
              [] r.what = "unlinkat" -> Gives(s, r, Strict(Unlink(fs, p)))
              [] r.what = "rmdirat" -> Gives(s, r, Strict(Rmdir(fs, p)))
              [] r.what = "symlinkat" -> Gives(s, r, Symlink(fs, p, r.to))
              [] r.what = "readlinkat" -> LET l == ReadLink(fs, p) IN IF o.path = l.path THEN Gives(s, r, l) ELSE {}
              [] r.what = "fstatat" -> Type(At(fs, p), FALSE)
              [] r.what = "fstatat_ifexists" -> Type(At(fs, p), TRUE)
              [] r.what = "lstatat" -> Type(Here(fs, p), FALSE)
              [] r.what = "lstatat_ifexists" -> Type(Here(fs, p), TRUE)
              [] r.what = "openat_ifexists" ->
                   LET x == At(fs, p) IN
                   Gives(s, r, IF Missing(x) THEN Did(Gone, fs) ELSE IF x.r = "is" /\ Readable(Node(fs, x)) THEN Did(Done, fs) ELSE Err(fs))
              [] r.what = "faccessat" -> Gives(s, r, IF At(fs, p).r = "is" THEN Did(Done, fs) ELSE Did(Gone, fs))
              [] OTHER -> {}

\* --- temporary files and directories
Live(s, k) == k \in DOMAIN s.tmp
\* six more characters at the end of the prefix
TempName(prefix, p) == Len(p) = Len(prefix) /\ SubSeq(p, 1, Len(p) - 1) = SubSeq(prefix, 1, Len(prefix) - 1)
                       /\ Len(p[Len(p)]) = Len(prefix[Len(prefix)]) + 6
                       /\ SubSeq(p[Len(p)], 1, Len(prefix[Len(prefix)])) = prefix[Len(prefix)]
RECURSIVE PutAll(_, _, _)
PutAll(fs, p, ns) == IF ns = <<>> THEN fs ELSE PutAll(With(fs, p \o ns[1].p, NodeOf(ns[1])), p, Tail(ns))
NewTemp(s, r) ==
    LET x == Here(s.fs, r.p) o == r.out IN
    IF x.r \in {"none", "bad"} \/ x.p = <<>> THEN Gives(s, r, Err(s.fs))
    ELSE IF o.v # Done \/ ~TempName(r.p, o.path) THEN {}
    ELSE LET real == SubSeq(x.p, 1, Len(x.p) - 1) \o <<o.path[Len(o.path)]>>
             fs == IF r.kind = "file" THEN With(s.fs, real, File(r.c, 384))
                   ELSE PutAll(With(s.fs, real, [Dir EXCEPT !.m = 448]), real, r.nodes)
         IN IF real \in DOMAIN s.fs \/ ~Seen(fs, o) THEN {}
            ELSE {[fs |-> fs, tmp |-> [k \in DOMAIN s.tmp \cup {r.id} |-> IF k = r.id THEN [kind |-> r.kind, p |-> o.path, real |-> real, keep |-> FALSE] ELSE s.tmp[k]]]}
OldTemp(s, r) ==
    IF ~Live(s, r.id) THEN (IF Seen(s.fs, r.out) THEN {s} ELSE {})
    ELSE LET t == s.tmp[r.id]
             x == Here(s.fs, t.p)
             gone == IF t.kind = "dir" THEN Rmtree(s.fs, t.p).fs ELSE IF x.r = "is" THEN Less(s.fs, {x.p}) ELSE s.fs
             tmp == [k \in DOMAIN s.tmp \ {r.id} |-> s.tmp[k]]
         IN CASE r.what = "keep" -> IF Seen(s.fs, r.out) THEN {[s EXCEPT !.tmp[r.id].keep = TRUE]} ELSE {}
              [] r.what = "unlink" -> IF t.kind = "dir" THEN (IF Seen(s.fs, r.out) THEN {s} ELSE {}) ELSE IF Seen(gone, r.out) THEN {To(s, gone)} ELSE {}
              [] r.what = "drop" ->
                   IF t.keep THEN (IF Seen(s.fs, r.out) THEN {[s EXCEPT !.tmp = tmp]} ELSE {})
                   ELSE IF t.kind = "dir" /\ (x.r # "is" \/ x.p # t.real) THEN {[fs |-> Untimed(TreeOf(r.out.tree)), tmp |-> tmp]}      \* moved away
                   ELSE IF Seen(gone, r.out) THEN {[fs |-> gone, tmp |-> tmp]} ELSE {}
              [] OTHER -> {}

IOOK(s, r) ==
    LET x == At(s.fs, r.p)
        there == IsA(s.fs, x, "file")
    IN IF ~(x.r = "no" \/ (there /\ Readable(s.fs[x.p]) /\ Writable(s.fs[x.p]))) THEN Gives(s, r, Err(s.fs))
       ELSE LET h == [c |-> IF there THEN s.fs[x.p].c ELSE <<>>, at |-> 0]
                n == IF there THEN s.fs[x.p] ELSE File(<<>>, 420)
                e == IORun(h, r.steps, IF r.most = 0 THEN 1000000 ELSE r.most)
            IN IF r.out.vs = e.vs THEN Gives(s, r, Did(Done, With(s.fs, x.p, File(e.c, n.m)))) ELSE {}
KeepOK(s, r) ==
    LET x == At(s.fs, r.p) IN
    LET n == s.fs[x.p] t == TreeOf(r.out.tree) IN
    IF ~(IsA(s.fs, x, "file") /\ Writable(n)) THEN (IF Has(r, "fault") /\ r.out.v = Stopped /\ Seen(s.fs, r.out) THEN {s} ELSE Gives(s, r, Err(s.fs)))
    ELSE IF Has(r, "fault") /\ Fails(r) THEN
        (IF \E k \in 0..Len(r.d) : Untimed(t) = Untimed(With(s.fs, x.p, [n EXCEPT !.c = PutAt(n.c, 0, SubSeq(r.d, 1, k))])) THEN {To(s, [Untimed(t) EXCEPT ![x.p].ts = -1])} ELSE {})
    ELSE IF Has(r, "fault") THEN Gives(s, r, Did(Done, With(s.fs, x.p, [n EXCEPT !.c = PutAt(n.c, 0, r.d), !.ts = -1])))
    ELSE IF r.out.kept THEN Gives(s, r, Did(Done, With(s.fs, x.p, [s.fs[x.p] EXCEPT !.c = PutAt(s.fs[x.p].c, 0, r.d)]))) ELSE {}
MapOK(s, r) ==
    LET x == At(s.fs, r.p) IN
    IF ~(IsA(s.fs, x, "file") /\ Readable(s.fs[x.p])) \/ s.fs[x.p].c = <<>> THEN Gives(s, r, Err(s.fs))
    ELSE IF r.out.good THEN Gives(s, r, Did(s.fs[x.p].c, s.fs)) ELSE {}
LocksStep(s, r) ==
    LET x == At(s.fs, r.p) IN
    IF \A k \in DOMAIN r.steps : r.steps[k].s = "drop" THEN Gives(s, r, Did(Done, s.fs))
    ELSE IF ~(IsA(s.fs, x, "file") /\ Readable(s.fs[x.p]) /\ Writable(s.fs[x.p])) THEN Gives(s, r, Err(s.fs))
    ELSE IF LocksOK(NoLocks, r.steps, r.out.vs) THEN Gives(s, r, Did(Done, s.fs)) ELSE {}
OpenStep(s, r) ==
    LET d == Opened(s.fs, r)
        up == At(s.fs, SubSeq(r.p, 1, Len(r.p) - 1))
        strict == r.how \in {0, 1, 3} \/ (r.how = 4 /\ up.r # "is")
        e == IF strict THEN Strict(d) ELSE d
    IN IF d.v = Gone /\ r.creat /\ r.out.v = Failed THEN Gives(s, r, Err(s.fs))
       ELSE IF r.out.mode = (IF e.v = Done THEN r.acc ELSE "") THEN Gives(s, r, e) ELSE {}
NamesOK(s, r) ==
    /\ Seen(s.fs, r.out)
    /\ r.out.went = Done /\ r.out.cwd = <<>> /\ r.out.v = Done
    /\ (r.suf = "/x" \/ r.out.suffix = Append(SubSeq(r.p, 1, Len(r.p) - 1), r.p[Len(r.p)] \o r.suf))
    /\ (Above(0, r.p) \/ r.out.abs = Normal(<<>>, r.p))
Elapsed(r) ==
    LET a == r.b b == r.u s == b[1] - a[1] n == b[2] - a[2] IN
    IF s < 0 \/ (s = 0 /\ n < 0) THEN <<0, 0>> ELSE IF n < 0 THEN <<s - 1, n + 1000000000>> ELSE <<s, n>>

Step1(s, r) ==
    LET fs == s.fs IN
    CASE r.op = "tree" -> LET t == TreeOf(r.nodes) IN IF Seen(t, r.out) THEN {[fs |-> t, tmp |-> <<>>]} ELSE {}
      [] r.op = "write" -> Faulty(s, r, Write(fs, r.p, r.c, r.m), LAMBDA t : PartOfWrite(Untimed(fs), r.p, r.c, r.m, t))
      [] r.op = "awrite" -> LET d == AtomicWrite(fs, r.p, r.c, r.m) IN
                            Faulty(s, r, d, LAMBDA t : PartOfAtomic(Untimed(fs), r.p, r.c, r.m, t, r.out.v = Stopped \/ d.v = Failed))
      [] r.op = "read" -> Faulty(s, r, Read(fs, r.p), LAMBDA t : t = Untimed(fs))
      [] r.op = "unlink" -> Gives(s, r, Strict(Unlink(fs, r.p)))
      [] r.op = "unlink_ifexists" -> Gives(s, r, Unlink(fs, r.p))
      [] r.op = "rename" -> Gives(s, r, Strict(Rename(fs, r.p, r.q)))
      [] r.op = "rename_ifexists" -> LET d == Rename(fs, r.p, r.q) IN
                                     Gives(s, r, IF d.v = Gone /\ Here(fs, r.q).r = "bad" /\ r.out.v = Failed THEN Err(fs) ELSE d)
      [] r.op = "mkdir_ifmissing" -> Gives(s, r, Mkdir(fs, r.p))
      [] r.op = "makedirs" -> Gives(s, r, Makedirs(fs, r.p))
      [] r.op = "rmdir" -> Gives(s, r, Strict(Rmdir(fs, r.p)))
      [] r.op \in {"rmtree", "rmtree_ifexists"} ->
            LET d == Rmtree(fs, r.p) IN
            IF IsA(fs, Here(fs, r.p), "link") THEN {To(s, Untimed(TreeOf(r.out.tree)))}
            ELSE Faulty(s, r, IF r.op = "rmtree" THEN Strict(d) ELSE d, LAMBDA t : PartOfRmtree(Untimed(fs), r.p, t))
      [] r.op = "touch" -> Gives(s, r, Touch(fs, r.p, r.ts))
      [] r.op = "ask" -> IF AskOK(fs, r) /\ Seen(fs, r.out) THEN {s} ELSE {}
      [] r.op = "list" -> IF ListOK(fs, r) /\ Seen(fs, r.out) THEN {s} ELSE {}
      [] r.op = "which" -> IF r.out.path = Which(fs, r.dirs, r.n) THEN {s} ELSE {}
      [] r.op = "at" -> AtStep(s, r)
      [] r.op = "mktemp" -> NewTemp(s, r)
      [] r.op = "temp" -> OldTemp(s, r)
      [] r.op = "io" -> IOOK(s, r)
      [] r.op = "times" -> KeepOK(s, r)
      [] r.op = "mmap" -> MapOK(s, r)
      [] r.op = "locks" -> LocksStep(s, r)
      [] r.op = "open" -> OpenStep(s, r)
      [] r.op = "names" -> IF NamesOK(s, r) THEN {s} ELSE {}
      [] r.op = "elapsed" -> IF r.out.e = Elapsed(r) THEN {s} ELSE {}
      [] r.op = "limit" -> IF r.out.inside = r.n /\ r.out.again = r.then /\ r.out.same THEN {s} ELSE {}
      [] OTHER -> {}
\* nothing stays open but what temporary files and directories hold
MyStep(s, r) == IF Has(r.out, "exc") THEN {} ELSE {x \in Step1(s, r) : r.out.fds = Cardinality(DOMAIN x.tmp)}
=============================================================================
