----------------------------- MODULE DirTreeMC -----------------------------
(* Histories of operations on small trees; and the ways of writing atomically
   and of removing a tree, one call of the system at a time, stopped anywhere. *)
EXTENDS DirTree, TLC, Json
CONSTANTS MaxOps
VARIABLES first, fs, hist
vars == <<first, fs, hist>>
A == <<"a">> B == <<"b">> AB == <<"a", "b">> BA == <<"b", "a">>
Paths == {A, B, AB, BA}
Trees == << (A :> Dir) @@ (AB :> File(<<1, 2>>, 420)) @@ (B :> File(<<3>>, 384)),
            (A :> Dir) @@ (B :> Link(A)) @@ (AB :> Link(B)),
            (A :> Link(<<"c">>)) @@ (B :> Dir) @@ (BA :> Dir) @@ (<<"b", "a", "c">> :> File(<<>>, 420)),
            (A :> Link(A)) @@ (B :> File(<<5, 6, 7>>, 292)) >>
One(op, p) == [op |-> op, p |-> p]
Ops == {One(o, p) : o \in {"unlink_ifexists", "mkdir_ifmissing", "makedirs", "rmdir", "rmtree_ifexists"}, p \in Paths}
       \cup {[op |-> o, p |-> p, c |-> c, m |-> 438] : o \in {"write", "awrite"}, p \in Paths, c \in {<<9, 9, 9>>}}
       \cup {[op |-> "rename_ifexists", p |-> p, q |-> q] : p \in Paths, q \in Paths}
\* removing by the name of a link is not defined
Defined(t, o) == o.op = "rmtree_ifexists" => ~IsA(t, Here(t, o.p), "link")
Do(t, o) == CASE o.op = "unlink_ifexists" -> Unlink(t, o.p)
              [] o.op = "mkdir_ifmissing" -> Mkdir(t, o.p)
              [] o.op = "makedirs" -> Makedirs(t, o.p)
              [] o.op = "rmdir" -> Rmdir(t, o.p)
              [] o.op = "rmtree_ifexists" -> Rmtree(t, o.p)
              [] o.op = "write" -> Write(t, o.p, o.c, o.m)
              [] o.op = "awrite" -> AtomicWrite(t, o.p, o.c, o.m)
              [] o.op = "rename_ifexists" -> Rename(t, o.p, o.q)
Init == first \in DOMAIN Trees /\ fs = Trees[first] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : Defined(fs, o) /\ fs' = Do(fs, o).fs /\ hist' = Append(hist, o)
        /\ UNCHANGED first
Tree == \A q \in DOMAIN fs : q # <<>> /\ (Len(q) > 1 => SubSeq(q, 1, Len(q) - 1) \in DOMAIN fs /\ fs[SubSeq(q, 1, Len(q) - 1)].t = "dir")
Bad(o) == LET d == Do(fs, o) IN ~(
    /\ d.v \in {Failed, Gone, Already} => d.fs = fs
    /\ d.v \in {Failed, Done, Gone, Already}
    /\ o.op \in {"write", "awrite"} /\ d.v = Done => Read(d.fs, o.p).v = o.c \/ ~Readable(fs[At(fs, o.p).p])
    /\ o.op \in {"unlink_ifexists", "rmdir", "rmtree_ifexists", "rename_ifexists"} /\ d.v = Done /\ d.fs # fs => Here(fs, o.p).p \notin DOMAIN d.fs
    /\ o.op \in {"mkdir_ifmissing", "makedirs"} /\ d.v # Failed => IsA(d.fs, At(d.fs, o.p), "dir") /\ Do(d.fs, o).v = Already
    /\ o.op = "rename_ifexists" /\ d.v = Done /\ Here(fs, o.q).r = "no" /\ d.fs # fs => Rename(d.fs, Here(fs, o.q).p, Here(fs, o.p).p).fs = fs
    \* what is not named is left
    /\ o.op # "rename_ifexists" => Same(fs, d.fs, LET ps == {At(fs, o.p).p, Here(fs, o.p).p} IN ps \cup {o.p} \cup UNION {Inside(fs, p) : p \in ps} \cup {SubSeq(o.p, 1, 1)}))
Laws == \A o \in Ops : (Defined(fs, o) /\ Bad(o)) => ~PrintT(o)
\* --- one call at a time: a temporary file is made, its mode set, its bytes written in parts, its name changed
Tmp(t, p) == LET x == Here(t, p) IN SubSeq(x.p, 1, Len(x.p) - 1) \o <<x.p[Len(x.p)] \o "XXXXXX">>
AtomicStages(t, p, c, m) ==
    LET x == Here(t, p) n == Tmp(t, p) IN
    IF x.r \notin {"is", "no"} THEN {t}
    ELSE {t, With(t, n, File(<<>>, 384))} \cup {With(t, n, File(SubSeq(c, 1, k), Masked(m))) : k \in 0..Len(c)}
         \cup {Rename(With(t, n, File(c, Masked(m))), n, p).fs}
AtomicSafe == \A p \in Paths : \A t \in AtomicStages(fs, p, <<9, 9, 9>>, 438) : PartOfAtomic(fs, p, <<9, 9, 9>>, 438, t, TRUE)
\* leaves first, in any order
RECURSIVE Stages(_, _)
Stages(todo, t) == {t} \cup UNION {Stages(todo \ {q}, Less(t, {q})) : q \in {q \in todo : Inside(t, q) = {}}}
RmtreeSafe == \A p \in Paths : Defined(fs, One("rmtree_ifexists", p)) =>
    LET x == At(fs, p) IN IsA(fs, x, "dir") => \A t \in Stages(Inside(fs, x.p) \cup {x.p}, fs) : PartOfRmtree(fs, p, t)
Emit == Len(hist) = MaxOps => PrintT("@E " \o ToJson([first |-> first, hist |-> hist]))
=============================================================================
