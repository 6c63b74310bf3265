------------------------------- MODULE ChildMC -------------------------------
(* A parent and a child that run at the same time: what the parent does is made of
   system calls, and the child may end between any two of them.  When the child was
   waited for its number may be given to another process.  Checked: signals reach
   the child or nobody, the child is waited for once, the parent is told the truth. *)
EXTENDS Child, TLC, Json
CONSTANTS Most
VARIABLES st, raw, told, pc, ans, owner, hit, reaps, hist

vars == <<st, raw, told, pc, ans, owner, hit, reaps, hist>>
Nobody == "nobody"
Init == st = "new" /\ raw = -1 /\ told = -1 /\ pc = "idle" /\ ans = "" /\ owner = Nobody /\ hit = {} /\ reaps = 0 /\ hist = <<>>
Idle == pc = "idle" /\ Len(hist) < Most
Did(o) == hist' = Append(hist, o)
O(op) == [op |-> op, n |-> 0]
Start == Idle /\ st = "new" /\ st' = "alive" /\ owner' = "child" /\ Did(O("fork")) /\ UNCHANGED <<raw, told, pc, ans, hit, reaps>>
\* ---- the child
Tell(n) == Idle /\ st = "alive" /\ st' = "dead" /\ raw' = Exited(n) /\ Did([op |-> "exit", n |-> n]) /\ UNCHANGED <<told, pc, ans, owner, hit, reaps>>
TellLater(n) == Idle /\ st = "alive" /\ st' = "due" /\ raw' = Exited(n) /\ Did([op |-> "later", n |-> n]) /\ UNCHANGED <<told, pc, ans, owner, hit, reaps>>
Ends == st = "due" /\ pc # "idle" /\ st' = "dead" /\ UNCHANGED <<raw, told, pc, ans, owner, hit, reaps, hist>>
\* ---- calls of the parent
Reaped == st' = "gone" /\ told' = raw /\ reaps' = reaps + 1 /\ owner' \in {Nobody, "other"}
Call(op) == Idle /\ Did(O(op)) /\ pc' = op /\ ans' = "" /\ UNCHANGED <<st, raw, told, owner, hit, reaps>>
Poll == st # "due" /\ Call("poll")
Wait == st \in {"new", "due", "dead", "gone"} /\ Call("wait")
WaitSome == st # "due" /\ Call("wait0")
WaitLong == st \in {"new", "due", "dead", "gone"} /\ Call("waitlong")
Answer(a) == pc' = "idle" /\ ans' = a
Try == /\ pc \in {"poll", "wait", "wait0", "waitlong", "again"}
       /\ CASE st = "new" -> Answer("error") /\ UNCHANGED <<st, raw, told, owner, hit, reaps, hist>>
            [] st = "gone" -> Answer("yes") /\ UNCHANGED <<st, raw, told, owner, hit, reaps, hist>>
            [] st = "dead" -> Answer("yes") /\ Reaped /\ UNCHANGED <<raw, hit, hist>>
            [] Alive(st) -> /\ CASE pc = "poll" -> Answer("no") [] pc = "wait" -> UNCHANGED <<pc, ans>> [] pc = "wait0" -> Answer("no")
                                [] pc = "waitlong" -> pc' = "asleep" /\ UNCHANGED ans [] pc = "again" -> Answer("no")
                           /\ UNCHANGED <<st, raw, told, owner, hit, reaps, hist>>
\* the signal of the end of the child wakes the parent, if it came before the parent slept the whole time goes by: either way it looks again
Wake == pc = "asleep" /\ st = "dead" /\ pc' = "again" /\ UNCHANGED <<st, raw, told, ans, owner, hit, reaps, hist>>
Signal(sig) ==
  /\ Idle /\ Did([op |-> "signal", n |-> sig]) /\ UNCHANGED <<told, reaps, owner, pc>>
  /\ IF st \in {"new", "gone"} THEN ans' = "error" /\ UNCHANGED <<st, raw, hit>>
     ELSE /\ ans' = "yes" /\ hit' = hit \union {owner}
          /\ IF Alive(st) /\ sig \in Deadly THEN st' = "dead" /\ raw' = Killed(sig) ELSE UNCHANGED <<st, raw>>
Next == Start \/ (\E n \in {0, 3} : Tell(n) \/ TellLater(n)) \/ Ends \/ Poll \/ Wait \/ WaitSome \/ WaitLong \/ Try \/ Wake \/ (st # "due" /\ \E sig \in {0, Term, Kill} : Signal(sig))
Spec == Init /\ [][Next]_vars /\ WF_vars(Try) /\ WF_vars(Wake) /\ WF_vars(Ends)

OnlyTheChild == hit \subseteq {"child"}
Once == reaps <= 1 /\ (reaps = 1 <=> st = "gone")
Truth == st = "gone" => told = raw
Told == (pc = "idle" /\ ans = "no") => st # "gone"
\* every call ends
Answered == [](pc # "idle" => <>(pc = "idle"))
Shown == (pc = "idle" /\ Len(hist) = Most) => PrintT("@E " \o ToJson(hist))
=============================================================================
