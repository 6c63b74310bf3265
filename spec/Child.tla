-------------------------------- MODULE Child --------------------------------
(* Child processes: what their descriptors are, how they live and end, and what
   the parent is told.
   A configuration c: in, out, err: "keep", "pipe", "null", "a" or "b" (a file
   given by descriptor), "0", "1", "2" (a standard descriptor of the parent given),
   "out" (errors to the output); close: only the passed descriptors stay.      *)
EXTENDS Integers, Sequences, FiniteSets

InActions == {"keep", "pipe", "null", "a", "b", "0"}
OutActions == {"keep", "pipe", "null", "a", "b", "1", "2"}
ErrActions == {"keep", "pipe", "null", "a", "b", "1", "2", "out"}
\* given the output's number, the errors go with the output, whatever it is by then: left open but when it is unchanged
Sensible(in, out, err) == err = "1" => out \in {"keep", "1"}

\* the files of the child's standard descriptors: p0, p1, p2 are those of the parent, "i", "o", "e" the pipes
InOf(in) == CASE in \in {"keep", "0"} -> "p0" [] in = "pipe" -> "i" [] OTHER -> in
OutOf(out) == CASE out \in {"keep", "1"} -> "p1" [] out = "2" -> "p2" [] out = "pipe" -> "o" [] OTHER -> out
ErrOf(out, err) == CASE err \in {"keep", "2"} -> "p2" [] err = "1" -> "p1" [] err = "pipe" -> "e" [] err = "out" -> OutOf(out) [] OTHER -> err
Intended(in, out, err) == <<InOf(in), OutOf(out), ErrOf(out, err)>>

\* ---- the life of a child: new, alive, due (alive, about to end by itself), dead (not waited for), gone
Alive(st) == st \in {"alive", "due"}
Exited(n) == (n % 256) * 256        \* the status of waitpid
Killed(sig) == sig
Term == 15
Kill == 9
Usr1 == 10
Deadly == {Term, Kill, Usr1}

\* ---- environments: a sequence of <<name, value>>
SetEnv(env, key, val) ==
  IF \E k \in DOMAIN env : env[k][1] = key
  THEN LET m == CHOOSE k \in DOMAIN env : env[k][1] = key /\ \A j \in 1..(k - 1) : env[j][1] # key IN [env EXCEPT ![m] = <<key, val>>]
  ELSE Append(env, <<key, val>>)
=============================================================================
