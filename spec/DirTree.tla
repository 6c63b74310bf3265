------------------------------ MODULE DirTree ------------------------------
(* A directory tree as the helpers on files see it (msat/utils/sys).

   A tree is a function from paths (sequences of names below the root) to nodes
   [t |-> "dir" | "file" | "link", c |-> content, m |-> mode, to |-> path a link
   leads to, ts |-> time of the last change, -1 if not known].  All is done by
   the owner of the files; umask is 022; directories are 0755.                *)
EXTENDS Integers, Sequences, FiniteSets

Dir == [t |-> "dir", c |-> <<>>, m |-> 493, to |-> <<>>, ts |-> -1]
File(c, m) == [t |-> "file", c |-> c, m |-> m, to |-> <<>>, ts |-> -1]
Link(to) == [t |-> "link", c |-> <<>>, m |-> 511, to |-> to, ts |-> -1]
Bit(m, b) == (m \div b) % 2 = 1
Readable(n) == n.t = "dir" \/ Bit(n.m, 256)
Writable(n) == n.t = "dir" \/ Bit(n.m, 128)
Executable(n) == n.t = "dir" \/ Bit(n.m, 64)
\* less the bits for writing of group and others
Masked(m) == m - (IF Bit(m, 16) THEN 16 ELSE 0) - (IF Bit(m, 2) THEN 2 ELSE 0)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Inside(fs, p) == {q \in DOMAIN fs : Prefix(p, q) /\ q # p}

\* where a path leads: r = "is": to the node p; "no": nothing, but there could be; "none": nothing,
\* not even its directory; "bad": through what is not a directory, or in circles
RECURSIVE Go(_, _, _, _, _)
Go(fs, at, rest, follow, d) ==
    IF rest = <<>> THEN [r |-> "is", p |-> at]
    ELSE LET q == Append(at, rest[1]) IN
         IF q \notin DOMAIN fs THEN [r |-> IF Len(rest) = 1 THEN "no" ELSE "none", p |-> q]
         ELSE IF fs[q].t = "link" /\ (Len(rest) > 1 \/ follow) THEN
              (IF d = 0 THEN [r |-> "bad", p |-> q] ELSE Go(fs, <<>>, fs[q].to \o Tail(rest), follow, d - 1))
         ELSE IF Len(rest) = 1 THEN [r |-> "is", p |-> q]
         ELSE IF fs[q].t = "dir" THEN Go(fs, q, Tail(rest), follow, d)
         ELSE [r |-> "bad", p |-> q]
At(fs, p) == Go(fs, <<>>, p, TRUE, 20)      \* following links
Here(fs, p) == Go(fs, <<>>, p, FALSE, 20)   \* not the last
Missing(x) == x.r \in {"no", "none"}
Node(fs, x) == IF x.p = <<>> THEN Dir ELSE fs[x.p]
IsA(fs, x, t) == x.r = "is" /\ Node(fs, x).t = t

With(fs, p, n) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN n ELSE fs[q]]
Less(fs, ps) == [q \in DOMAIN fs \ ps |-> fs[q]]
\* what an operation does: v: its result (bytes, or one of these), fs: the tree after it
Failed == <<-1>>
Done == <<-2>>
Gone == <<-3>>          \* there was nothing
Already == <<-4>>
AtEnd == <<-5>>
Num(n) == <<-9, n>>
Did(v, fs) == [v |-> v, fs |-> fs]
Err(fs) == Did(Failed, fs)

Write(fs, p, c, m) ==
    LET x == At(fs, p) IN
    IF IsA(fs, x, "file") THEN (IF Writable(fs[x.p]) THEN Did(Done, With(fs, x.p, File(c, fs[x.p].m))) ELSE Err(fs))
    ELSE IF x.r = "no" THEN Did(Done, With(fs, x.p, File(c, Masked(m))))
    ELSE Err(fs)
AtomicWrite(fs, p, c, m) ==
    LET x == Here(fs, p) IN
    IF x.r = "no" \/ (x.r = "is" /\ ~IsA(fs, x, "dir")) THEN Did(Done, With(fs, x.p, File(c, Masked(m))))
    ELSE Err(fs)
Read(fs, p) ==
    LET x == At(fs, p) IN IF IsA(fs, x, "file") /\ Readable(fs[x.p]) THEN Did(fs[x.p].c, fs) ELSE Err(fs)
Unlink(fs, p) ==
    LET x == Here(fs, p) IN
    IF Missing(x) THEN Did(Gone, fs)
    ELSE IF x.r = "is" /\ ~IsA(fs, x, "dir") THEN Did(Done, Less(fs, {x.p}))
    ELSE Err(fs)
Rmdir(fs, p) ==
    LET x == Here(fs, p) IN
    IF Missing(x) THEN Did(Gone, fs)
    ELSE IF IsA(fs, x, "dir") /\ x.p # <<>> /\ Inside(fs, x.p) = {} THEN Did(Done, Less(fs, {x.p}))
    ELSE Err(fs)
Rmtree(fs, p) ==
    LET x == At(fs, p) IN
    IF Missing(x) THEN Did(Gone, fs)
    ELSE IF IsA(fs, x, "dir") THEN Did(Done, Less(fs, Inside(fs, x.p) \cup {x.p}))
    ELSE Err(fs)
Moved(fs, a, b) ==
    LET gone == Less(fs, {b} \cup Inside(fs, b))
        New(q) == IF Prefix(a, q) THEN b \o SubSeq(q, Len(a) + 1, Len(q)) ELSE q
    IN [q \in {New(o) : o \in DOMAIN gone} |-> gone[CHOOSE o \in DOMAIN gone : New(o) = q]]
Rename(fs, a, b) ==
    LET x == Here(fs, a) y == Here(fs, b) IN
    IF Missing(x) THEN Did(Gone, fs)
    ELSE IF x.r # "is" \/ y.r \notin {"is", "no"} \/ x.p = <<>> \/ y.p = <<>> THEN Err(fs)
    ELSE IF x.p = y.p THEN Did(Done, fs)
    ELSE IF Prefix(x.p, y.p) \/ Prefix(y.p, x.p) THEN Err(fs)
    ELSE IF y.r = "no" THEN Did(Done, Moved(fs, x.p, y.p))
    ELSE IF fs[x.p].t = "dir" THEN (IF fs[y.p].t = "dir" /\ Inside(fs, y.p) = {} THEN Did(Done, Moved(fs, x.p, y.p)) ELSE Err(fs))
    ELSE IF fs[y.p].t = "dir" THEN Err(fs)
    ELSE Did(Done, Moved(fs, x.p, y.p))
Mkdir(fs, p) ==
    LET x == Here(fs, p) IN
    IF x.r = "no" THEN Did(Done, With(fs, x.p, Dir))
    ELSE IF x.r = "is" /\ IsA(fs, At(fs, p), "dir") THEN Did(Already, fs)
    ELSE Err(fs)
RECURSIVE MakeAll(_, _, _, _)
MakeAll(fs, p, k, v) ==
    IF k > Len(p) THEN Did(v, fs)
    ELSE LET d == Mkdir(fs, SubSeq(p, 1, k)) IN
         IF d.v = Failed THEN d ELSE MakeAll(d.fs, p, k + 1, d.v)
Makedirs(fs, p) == MakeAll(fs, p, 1, Already)
Touch(fs, p, ts) ==
    LET x == At(fs, p) IN
    IF x.r # "is" THEN Err(fs)
    ELSE IF x.p = <<>> THEN Did(Done, fs)
    ELSE Did(Done, With(fs, x.p, [fs[x.p] EXCEPT !.ts = IF fs[x.p].t = "file" THEN ts ELSE -1]))
Symlink(fs, p, to) ==
    LET x == Here(fs, p) IN IF x.r = "no" THEN Did(Done, With(fs, x.p, Link(to))) ELSE Err(fs)
ReadLink(fs, p) ==
    LET x == Here(fs, p) IN IF IsA(fs, x, "link") THEN [v |-> Done, fs |-> fs, path |-> fs[x.p].to] ELSE [v |-> Failed, fs |-> fs, path |-> <<>>]
\* the entries of a directory: their names and kinds, and what opening them gives
Entries(fs, p) ==
    LET x == At(fs, p) IN
    IF ~IsA(fs, x, "dir") THEN [v |-> Failed, es |-> {}]
    ELSE [v |-> Done, es |-> {[n |-> q[Len(q)], t |-> fs[q].t, opens |-> LET y == At(fs, q) IN IF y.r = "is" THEN Node(fs, y).t ELSE "error"]
              : q \in {q \in Inside(fs, x.p) : Len(q) = Len(x.p) + 1}}]
\* the first place with an executable of that name
RECURSIVE Which(_, _, _)
Which(fs, dirs, n) ==
    IF dirs = <<>> THEN <<>>
    ELSE LET x == At(fs, Append(dirs[1], n)) IN
         IF x.r = "is" /\ Executable(Node(fs, x)) THEN Append(dirs[1], n) ELSE Which(fs, Tail(dirs), n)

\* --- what may be left when a call of the system fails in the middle (err: it is told) or the process stops (~err)
Same(a, b, but) == \A q \in (DOMAIN a \cup DOMAIN b) \ but : q \in DOMAIN a /\ q \in DOMAIN b /\ a[q] = b[q]
PrefixOf(c, d) == Len(c) <= Len(d) /\ SubSeq(d, 1, Len(c)) = c
PartOfWrite(fs, p, c, m, after) ==
    LET x == At(fs, p) IN
    IF x.r = "bad" \/ x.r = "none" \/ IsA(fs, x, "dir") THEN after = fs
    ELSE /\ Same(fs, after, {x.p})
         /\ (x.p \notin DOMAIN fs => x.p \notin DOMAIN after \/ after[x.p].m = Masked(m))
         /\ (x.p \in DOMAIN fs => x.p \in DOMAIN after /\ after[x.p].m = fs[x.p].m)
         /\ (x.p \in DOMAIN after => after[x.p].t = "file" /\ (PrefixOf(after[x.p].c, c) \/ (x.p \in DOMAIN fs /\ after[x.p] = fs[x.p])))
\* extra: a temporary file may be left
PartOfAtomic(fs, p, c, m, after, extra) ==
    LET d == AtomicWrite(fs, p, c, m)
        x == Here(fs, p)
        more == DOMAIN after \ DOMAIN d.fs
        less == [q \in DOMAIN after \ {q \in more : extra /\ Len(q) = Len(x.p) /\ Prefix(SubSeq(q, 1, Len(q) - 1), x.p) /\ after[q].t = "file"} |-> after[q]]
    IN (less = fs \/ less = d.fs) /\ Cardinality(more) <= 2
PartOfRmtree(fs, p, after) ==
    LET x == At(fs, p) IN
    IF ~IsA(fs, x, "dir") THEN after = fs
    ELSE /\ DOMAIN after \subseteq DOMAIN fs
         /\ Same(fs, after, {x.p} \cup Inside(fs, x.p))
         /\ \A q \in DOMAIN after : q \in DOMAIN fs /\ after[q] = fs[q] /\ (Len(q) > 1 => SubSeq(q, 1, Len(q) - 1) \in DOMAIN after)

\* --- reading and writing an open file: h = [c, at]
Bytes(c, a, n) == SubSeq(c, a + 1, IF a + n > Len(c) THEN Len(c) ELSE a + n)
PutAt(c, a, d) == [k \in 1..(IF d = <<>> \/ a + Len(d) <= Len(c) THEN Len(c) ELSE a + Len(d)) |->
                   IF k > a /\ k <= a + Len(d) THEN d[k - a] ELSE IF k <= Len(c) THEN c[k] ELSE 0]
Cut(c, n) == [k \in 1..n |-> IF k <= Len(c) THEN c[k] ELSE 0]
Least(a, b) == IF a < b THEN a ELSE b
\* st: a step; most: how many bytes the system moves at once
IOStep(h, st, most) ==
    LET c == h.c a == h.at n == IF "n" \in DOMAIN st THEN st.n ELSE 0 d == IF "d" \in DOMAIN st THEN st.d ELSE <<>>
        left == IF a > Len(c) THEN 0 ELSE Len(c) - a
        R(v, b) == [v |-> v, c |-> c, at |-> b]
        W(v, b, e) == [v |-> v, c |-> b, at |-> e]
    IN CASE st.s = "read" -> LET k == Least(Least(n, most), left) IN R(Bytes(c, a, k), a + k)
         [] st.s = "readall" -> IF left >= n THEN R(Bytes(c, a, n), a + n) ELSE IF left = 0 THEN R(AtEnd, a) ELSE R(Failed, a + left)
         [] st.s = "readthrow" -> LET k == Least(Least(n, most), left) IN IF k = n THEN R(Bytes(c, a, n), a + n) ELSE R(Failed, a + k)
         [] st.s = "write" -> LET k == Least(Len(d), most) IN W(Num(k), PutAt(c, a, SubSeq(d, 1, k)), a + k)
         [] st.s = "writeall" -> W(Done, PutAt(c, a, d), a + Len(d))
         [] st.s = "writethrow" -> LET k == Least(Len(d), most) IN W(IF k = Len(d) THEN Done ELSE Failed, PutAt(c, a, SubSeq(d, 1, k)), a + k)
         [] st.s = "seek" -> R(Num(n), n)
         [] st.s = "end" -> R(Num(Len(c) + n), Len(c) + n)
         [] st.s = "pread" -> LET k == Least(Least(n, most), IF st.at > Len(c) THEN 0 ELSE Len(c) - st.at) IN R(Bytes(c, st.at, k), a)
         [] st.s = "pwrite" -> LET k == Least(Len(d), most) IN W(Num(k), PutAt(c, st.at, SubSeq(d, 1, k)), a)
         [] st.s = "trunc" -> W(Done, Cut(c, n), a)
         [] st.s = "size" -> R(Num(Len(c)), a)
         [] OTHER -> R(<<-99>>, a)
RECURSIVE IORun(_, _, _)
IORun(h, steps, most) ==
    IF steps = <<>> THEN [vs |-> <<>>, c |-> h.c]
    ELSE LET x == IOStep(h, steps[1], most) r == IORun([c |-> x.c, at |-> x.at], Tail(steps), most)
         IN [vs |-> <<x.v>> \o r.vs, c |-> r.c]

\* --- opening: acc: "r", "w" or "rw"; then d is written, at the start or (append) at the end
Opened(fs, o) ==
    LET x == IF o.excl \/ o.nofollow THEN Here(fs, o.p) ELSE At(fs, o.p)
        n == IF x.r = "is" THEN Node(fs, x) ELSE Dir
        d == IF o.acc = "r" THEN <<>> ELSE o.d
        c == IF o.trunc THEN <<>> ELSE n.c
    IN IF x.r = "bad" THEN Err(fs)
       ELSE IF x.r = "none" THEN Did(Gone, fs)
       ELSE IF x.r = "no" THEN (IF o.creat THEN Did(Done, With(fs, x.p, File(d, Masked(o.m)))) ELSE Did(Gone, fs))
       ELSE IF o.excl \/ n.t = "link" THEN Err(fs)
       ELSE IF n.t = "dir" THEN (IF o.creat \/ o.acc # "r" THEN Err(fs) ELSE Did(Done, fs))
       ELSE IF (o.acc # "w" /\ ~Readable(n)) \/ (o.acc # "r" /\ ~Writable(n)) THEN Err(fs)
       ELSE IF o.acc = "r" THEN Did(Done, fs)
       ELSE Did(Done, With(fs, x.p, [n EXCEPT !.c = PutAt(c, IF o.append THEN Len(c) ELSE 0, d), !.ts = -1]))

\* --- locks of open files: L[h][b] is the lock that h has on byte b: "u" (none), "r" or "w"; 0..Last stand for all bytes
Last == 30
NoLocks == [h \in 1..3 |-> [b \in 0..Last |-> "u"]]
Range(st) == {b \in 0..Last : b >= st.a /\ (st.n = 0 \/ b < st.a + st.n)}
Stops(x, t) == (t = "w" /\ x # "u") \/ (t = "r" /\ x = "w")
Clash(L, st) == \E g \in 1..3 \ {st.h} : \E b \in Range(st) : Stops(L[g][b], st.t)
Locked(L, st) == [L EXCEPT ![st.h] = [b \in 0..Last |-> IF b \in Range(st) THEN st.t ELSE L[st.h][b]]]
\* [a |-> answer, L |-> locks after it]
LockStep(L, st) ==
    LET Ans(a, M) == [a |-> a, L |-> M] IN
    CASE st.s = "drop" -> Ans("yes", [L EXCEPT ![st.h] = [b \in 0..Last |-> "u"]])
      [] st.s = "get" -> Ans(IF Clash(L, st) THEN "no" ELSE "yes", L)
      [] st.s = "set" -> IF Clash(L, st) THEN Ans("no", L) ELSE Ans("yes", Locked(L, st))
      [] OTHER -> IF Clash(L, st) THEN Ans(IF st.retry THEN "skip" ELSE "no", L)       \* waiting for ever, unless a signal comes
                  ELSE IF st.signals > 0 /\ ~st.retry THEN Ans("no", L) ELSE Ans("yes", Locked(L, st))
\* no byte is ever locked for writing by one and by another
Exclusive(L) == \A g, h \in 1..3 : \A b \in 0..Last : (g # h /\ L[g][b] = "w") => L[h][b] = "u"
\* the lock that was in the way, if told
InTheWay(L, st, v) == \E g \in 1..3 \ {st.h} : \E b \in Range(st) :
    /\ Stops(L[g][b], st.t) /\ v.t = L[g][b] /\ b >= v.at /\ (v.n = 0 \/ b < v.at + v.n)
    /\ \A c \in 0..Last : (c >= v.at /\ (v.n = 0 \/ c < v.at + v.n)) => L[g][c] = v.t
RECURSIVE LocksOK(_, _, _)
LocksOK(L, steps, vs) ==
    IF steps = <<>> THEN vs = <<>>
    ELSE /\ vs # <<>>
         /\ \E x \in {LockStep(L, steps[1])} :
                /\ vs[1].a = x.a
                /\ (steps[1].s = "get" /\ x.a = "no" => InTheWay(L, steps[1], vs[1]))
                /\ LocksOK(x.L, Tail(steps), Tail(vs))

\* --- names: . and .. taken away; what is above the root is not followed here
RECURSIVE Normal(_, _)
Normal(done, rest) ==
    IF rest = <<>> THEN done
    ELSE IF rest[1] = "." THEN Normal(done, Tail(rest))
    ELSE IF rest[1] = ".." /\ done # <<>> THEN Normal(SubSeq(done, 1, Len(done) - 1), Tail(rest))
    ELSE Normal(Append(done, rest[1]), Tail(rest))
RECURSIVE Above(_, _)
Above(k, rest) == IF rest = <<>> THEN FALSE ELSE IF rest[1] = ".." THEN (k = 0 \/ Above(k - 1, Tail(rest))) ELSE Above(IF rest[1] = "." THEN k ELSE k + 1, Tail(rest))
=============================================================================
