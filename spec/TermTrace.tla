------------------------------ MODULE TermTrace ------------------------------
(* What terminals and progress reports were seen to show.  State: the handler in
   use (0: none that writes, else its stream), how deep each stream's handler is,
   and what each of the two streams got so far.                                *)
EXTENDS Term, TraceBase
MyStarts(r) == {[h |-> 0, depth |-> 0, text |-> <<<<>>, <<>>>>, tasks |-> 0]}
Keep(s, ok) == IF ok THEN {s} ELSE {}
ColourOk(r) ==
  LET fg == IF r.how = "bg" THEN 0 ELSE r.fg bg == IF r.how = "fg" THEN 0 ELSE r.bg IN
  /\ r.out.was = (IF r.tty = 2 THEN 1 ELSE 0)
  /\ IF r.tty > 0 THEN Shown(r.out.s) = Coloured(r.s, fg, bg) /\ Shown(r.out.out) = Coloured(r.s, fg, bg)
     ELSE r.out.s = r.s /\ r.out.out = r.s
\* line l written by the handler in use
Put(s, l) == IF s.h = 0 THEN s ELSE [s EXCEPT !.text[s.h] = @ \o l]
Then(s, n, r) == IF r.out.text = n.text THEN {n} ELSE {}
MyStep(s, r) ==
  IF "exc" \in DOMAIN r.out THEN {}
  ELSE
  CASE r.op = "colour" -> Keep(s, ("none" \in DOMAIN r.out /\ r.tty = 2) \/ ColourOk(r))
    [] r.op = "handler" -> Then(s, [s EXCEPT !.h = r.h, !.depth = 0], r)
    [] r.op = "activity" -> Then(s, Put(s, Activity(s.depth, r.s, r.perc, r.tot)), r)
    [] r.op \in {"push", "task"} -> Then(s, [Put(s, Task(s.depth, r.s)) EXCEPT !.depth = @ + 1, !.tasks = IF r.op = "task" THEN @ + 1 ELSE @], r)
    [] r.op = "pop" -> Then(s, [s EXCEPT !.depth = @ - 1], r)
    [] r.op = "end" -> IF s.tasks = 0 THEN Then(s, s, r) ELSE Then(s, [s EXCEPT !.depth = @ - 1, !.tasks = @ - 1], r)
    \* reports of the innermost task
    [] r.op = "report" -> IF s.tasks = 0 THEN Then(s, s, r) ELSE Then(s, Put(s, Activity(s.depth, r.s, r.perc, r.tot)), r)
    [] OTHER -> {}
=============================================================================
