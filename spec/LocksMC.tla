------------------------------- MODULE LocksMC -------------------------------
(* Three open files, all they can do about two of the bytes of a file. *)
EXTENDS DirTree
LastMC == 2
VARIABLES L, hist
vars == <<L, hist>>
Steps == [h : 1..3, s : {"set", "get", "wait"}, t : {"r", "w"}, a : {0, 1}, n : {0, 1}, signals : {0, 1}, retry : {FALSE, TRUE}]
         \cup [h : 1..3, s : {"set"}, t : {"u"}, a : {0, 1}, n : {0, 1}, signals : {0}, retry : {FALSE}]
         \cup [h : 1..3, s : {"drop"}, t : {"u"}, a : {0}, n : {0}, signals : {0}, retry : {FALSE}]
Canon == {st \in Steps : st.s # "wait" => st.signals = 0 /\ ~st.retry}
Init == L = NoLocks /\ hist = <<>>
Next == \E st \in Canon : L' = LockStep(L, st).L /\ hist' = <<st, LockStep(L, st).a>>
Spec == Init /\ [][Next]_vars
View == L
NeverBoth == Exclusive(L)
\* what is told is what happens; a test changes nothing
Honest == \A st \in Canon :
    /\ st.s = "get" => LockStep(L, st).L = L
    /\ st.s = "set" => LockStep(L, st).a = LockStep(L, [st EXCEPT !.s = "get"]).a \/ st.t = "u"
    /\ LockStep(L, st).a = "no" => LockStep(L, st).L = L
    /\ (st.s = "set" /\ LockStep(L, st).a = "yes") => \A b \in Range(st) : LockStep(L, st).L[st.h][b] = st.t
    /\ LockStep(L, st).a = "yes" => \A g \in 1..3 \ {st.h} : LockStep(L, st).L[g] = L[g]
\* closing lets the others go on
Freed == \A h \in 1..3 : LET M == LockStep(LockStep(L, [h |-> 1 + (h % 3), s |-> "drop", t |-> "u", a |-> 0, n |-> 0, signals |-> 0, retry |-> FALSE]).L,
                                  [h |-> 1 + ((h + 1) % 3), s |-> "drop", t |-> "u", a |-> 0, n |-> 0, signals |-> 0, retry |-> FALSE]).L
         IN ~Clash(M, [h |-> h, s |-> "set", t |-> "w", a |-> 0, n |-> 0])
=============================================================================
