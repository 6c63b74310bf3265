------------------------------ MODULE ChildFdMC ------------------------------
(* The descriptors of parent and child, call by call: the pipes made before the
   fork, the redirections in the child, the closing of the rest.  Checked: the
   standard descriptors of the child are those intended, nothing else but what is
   passed stays open, the parent holds the other ends of its pipes, and only them. *)
EXTENDS Child, TLC, Json
CONSTANT Odd   \* also parents that miss standard descriptors
VARIABLES c, pt, ct, pipes, pc, gone

vars == <<c, pt, ct, pipes, pc, gone>>
Fds == 0..24
None == "-"
Extras == {20, 21}
Files(missing) == [f \in Fds |-> CASE f \in missing -> None [] f = 0 -> "p0" [] f = 1 -> "p1" [] f = 2 -> "p2" [] f = 3 -> "a" [] f = 4 -> "b" [] f = 20 -> "x" [] f = 21 -> "y" [] OTHER -> None]
Lowest(t) == CHOOSE f \in Fds : t[f] = None /\ \A g \in 0..(f - 1) : t[g] # None
MakePipe(t, name) == LET r == Lowest(t) u == [t EXCEPT ![r] = name \o "r"] w == Lowest(u) IN <<[u EXCEPT ![w] = name \o "w"], <<r, w>>>>
Configs == [in : InActions, out : OutActions, err : ErrActions, close : {TRUE, FALSE}, pass : {{}, {20}, {20, 21}}, missing : {{}}]
OddConfigs == {k \in [in : {"keep", "pipe"}, out : {"keep", "pipe"}, err : {"keep", "pipe"}, close : {TRUE}, pass : {{}}, missing : {{0}, {0, 1}, {1, 2}}] :
               \/ k.missing = {0} /\ k.in = "pipe" /\ k.out = "keep" /\ k.err = "keep"
               \/ k.missing = {0, 1} /\ k.in = "keep" /\ k.out = "pipe" /\ k.err = "keep"
               \/ k.missing = {1, 2} /\ k.in = "keep" /\ k.out = "keep" /\ k.err = "pipe"}
Init == /\ c \in {k \in Configs : Sensible(k.in, k.out, k.err) /\ (~k.close => k.pass = {})} \union Odd
        /\ pt = Files(c.missing) /\ ct = <<>> /\ pipes = [s \in 1..3 |-> <<-1, -1>>] /\ pc = "pipes" /\ gone = {}
PipesMade ==
  LET a == IF c.in = "pipe" THEN MakePipe(pt, "i") ELSE <<pt, <<-1, -1>>>>
      b == IF c.out = "pipe" THEN MakePipe(a[1], "o") ELSE <<a[1], <<-1, -1>>>>
      d == IF c.err = "pipe" THEN MakePipe(b[1], "e") ELSE <<b[1], <<-1, -1>>>>
  IN pc = "pipes" /\ pt' = d[1] /\ pipes' = <<a[2], b[2], d[2]>> /\ pc' = "fork" /\ UNCHANGED <<c, ct, gone>>
\* the parent closes the ends of the child
Fork == pc = "fork" /\ ct' = pt /\ pc' = "in" /\ gone' = {pipes[1][1], pipes[2][2], pipes[3][2]} \ {-1}
        /\ pt' = [f \in Fds |-> IF f \in {pipes[1][1], pipes[2][2], pipes[3][2]} THEN None ELSE pt[f]] /\ UNCHANGED <<c, pipes>>
Dup(t, from, to) == [t EXCEPT ![to] = t[from]]
Close(t, f) == [t EXCEPT ![f] = None]
Move(t, from, to) == IF from = to THEN t ELSE Close(Dup(t, from, to), from)
Given(x) == CASE x = "a" -> 3 [] x = "b" -> 4 [] x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2
Redirected(t, x, to, mine, theirs) ==
  CASE x = "keep" -> t [] x = "null" -> [t EXCEPT ![to] = "null"] [] x = "pipe" -> Move(Close(t, theirs), mine, to) [] x = "out" -> Dup(t, 1, to) [] OTHER -> Dup(t, Given(x), to)
In == pc = "in" /\ ct' = Redirected(ct, c.in, 0, pipes[1][1], pipes[1][2]) /\ pc' = "out" /\ UNCHANGED <<c, pt, pipes, gone>>
Out == pc = "out" /\ ct' = Redirected(ct, c.out, 1, pipes[2][2], pipes[2][1]) /\ pc' = "err" /\ UNCHANGED <<c, pt, pipes, gone>>
Err == pc = "err" /\ ct' = Redirected(ct, c.err, 2, pipes[3][2], pipes[3][1]) /\ pc' = "rest" /\ UNCHANGED <<c, pt, pipes, gone>>
Rest == pc = "rest" /\ ct' = (IF c.close \/ c.pass # {} THEN [f \in Fds |-> IF f > 2 /\ f \notin c.pass THEN None ELSE ct[f]] ELSE ct) /\ pc' = "main" /\ UNCHANGED <<c, pt, pipes, gone>>
Next == PipesMade \/ Fork \/ In \/ Out \/ Err \/ Rest
Spec == Init /\ [][Next]_vars

End(x, end) == IF x \in {"i", "o", "e"} THEN x \o end ELSE x
Standard == pc = "main" => LET w == Intended(c.in, c.out, c.err) IN
  /\ 0 \in c.missing \/ ct[0] = End(w[1], "r")
  /\ (1 \in c.missing /\ c.out # "pipe") \/ ct[1] = End(w[2], "w")
  /\ (2 \in c.missing /\ c.err # "pipe") \/ ct[2] = End(w[3], "w")
  /\ (0 \in c.missing => ct[0] = IF c.in = "pipe" THEN "ir" ELSE None)
OnlyPassed == pc = "main" => \A f \in 3..24 : ct[f] # None => (f \in c.pass \/ (~c.close /\ c.pass = {} /\ f \in {3, 4} \union Extras))
Passed == pc = "main" => \A f \in c.pass : ct[f] = Files({})[f]
\* no end of a pipe of the parent is in the child: it sees the end of its input
Ends == pc = "main" => \A f \in Fds : ct[f] \notin {"iw", "or", "er"}
Parents == pc = "main" => \A f \in Fds : pt[f] \in {"iw", "or", "er", Files(c.missing)[f]}
Shown == pc = "main" => PrintT("@E " \o ToJson(c))
=============================================================================
