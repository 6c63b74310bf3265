-------------------------------- MODULE Term --------------------------------
(* Coloured text and reports of progress.  A terminal reads bytes: escape
   sequences change how what follows is shown.  Colours: 0 none, 1 to 8, and
   16 more for bright.                                                       *)
EXTENDS Integers, Sequences

Plain == [fg |-> 0, bright |-> FALSE, bg |-> 0, bgbright |-> FALSE]
Escape == 27
\* one number of an escape sequence
Select(s, n) ==
  CASE n = 0 -> Plain
    [] n = 1 -> [s EXCEPT !.bright = TRUE]
    [] n = 22 -> [s EXCEPT !.bright = FALSE]
    [] n = 39 -> [s EXCEPT !.fg = 0]
    [] n = 49 -> [s EXCEPT !.bg = 0, !.bgbright = FALSE]
    [] n \in 30..37 -> [s EXCEPT !.fg = n - 29]
    [] n \in 90..97 -> [s EXCEPT !.fg = n - 89, !.bright = TRUE]
    [] n \in 40..47 -> [s EXCEPT !.bg = n - 39, !.bgbright = FALSE]
    [] n \in 100..107 -> [s EXCEPT !.bg = n - 99, !.bgbright = TRUE]
    [] OTHER -> s
RECURSIVE Numbers(_, _, _)   \* of q from k on, n being read: <<numbers, place after the m>> ; -1: no sequence
Numbers(q, k, n) ==
  IF k > Len(q) THEN <<<<>>, -1>>
  ELSE IF q[k] = 109 THEN <<<<n>>, k + 1>>
  ELSE IF q[k] = 59 THEN LET r == Numbers(q, k + 1, 0) IN <<<<n>> \o r[1], r[2]>>
  ELSE IF q[k] \in 48..57 THEN Numbers(q, k + 1, (n * 10) + (q[k] - 48))
  ELSE <<<<>>, -1>>
RECURSIVE All(_, _)
All(s, ns) == IF ns = <<>> THEN s ELSE All(Select(s, ns[1]), Tail(ns))
RECURSIVE Show(_, _, _, _)   \* the cells shown, and how the terminal is left
Show(q, k, s, cells) ==
  IF k > Len(q) THEN [cells |-> cells, s |-> s]
  ELSE IF q[k] = Escape /\ k < Len(q) /\ q[k + 1] = 91
       THEN LET r == Numbers(q, k + 2, 0) IN IF r[2] < 0 THEN [cells |-> Append(cells, [c |-> q[k], s |-> s]), s |-> [fg |-> -1]] ELSE Show(q, r[2], All(s, r[1]), cells)
  ELSE Show(q, k + 1, s, Append(cells, [c |-> q[k], s |-> s]))
Shown(q) == Show(q, 1, Plain, <<>>)
Asked(fg, bg) == [fg |-> fg % 16, bright |-> fg >= 16, bg |-> bg % 16, bgbright |-> bg >= 16 /\ bg % 16 > 0]
Coloured(text, fg, bg) == [cells |-> [k \in DOMAIN text |-> [c |-> text[k], s |-> Asked(fg, bg)]], s |-> Plain]
\* what the code writes
Digits(n) == IF n >= 100 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>> ELSE IF n >= 10 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + n>>
RECURSIVE Joined(_)
Joined(ns) == IF ns = <<>> THEN <<>> ELSE IF Len(ns) = 1 THEN Digits(ns[1]) ELSE Digits(ns[1]) \o <<59>> \o Joined(Tail(ns))
Sgr(fg, bg) == <<Escape, 91>> \o Joined((IF fg >= 16 THEN <<1>> ELSE <<>>) \o (IF fg % 16 > 0 THEN <<29 + (fg % 16)>> ELSE <<>>)
                                        \o (IF bg % 16 = 0 THEN <<>> ELSE IF bg >= 16 THEN <<99 + (bg % 16)>> ELSE <<39 + (bg % 16)>>)) \o <<109>>
Written(text, fg, bg) == Sgr(fg, bg) \o text \o <<Escape, 91, 48, 109>>
Colours == (0..8) \union (16..24)

\* ---- progress: a handler writes lines, indented by the tasks it knows to be open
Blanks(n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> 32]
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Activity(indent, text, perc, tot) ==
  Blanks(indent) \o text \o (IF perc # -1 /\ tot # -1 THEN <<32, 40>> \o Dec(perc) \o <<47>> \o Dec(tot) \o <<41>> ELSE IF perc # -1 THEN <<32>> \o Dec(perc) \o <<37>> ELSE <<>>) \o <<10>>
Task(indent, text) == Blanks(indent) \o text \o <<46, 46, 46, 10>>
=============================================================================
