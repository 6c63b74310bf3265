------------------------------- MODULE TermMC -------------------------------
(* Every pair of colours on short texts: what is written is shown as asked, and
   the terminal is left as it was; texts one after the other keep apart.        *)
EXTENDS Term, TLC
VARIABLES fg, bg, text, screen
vars == <<fg, bg, text, screen>>
Texts == {<<>>, <<65>>, <<65, 59, 49, 109>>, <<91, 51>>, <<10, 32>>}
Init == fg \in Colours /\ bg \in Colours /\ text \in Texts /\ screen = <<>>
Next == screen = <<>> /\ \E f \in {0, 3, 17} : \E b \in {0, 8, 20} : fg' = f /\ bg' = b /\ \E t \in Texts : text' = t /\ screen' = Written(text, fg, bg)
Spec == Init /\ [][Next]_vars
AsAsked == Shown(Written(text, fg, bg)) = Coloured(text, fg, bg)
Apart == Shown(screen \o Written(text, fg, bg)).cells = Shown(screen).cells \o Coloured(text, fg, bg).cells
=============================================================================
