------------------------------ MODULE TimesMC ------------------------------
(* Day after day, as far as the day counter of the records goes. *)
EXTENDS Times, TLC, Json
VARIABLES day, date
Init == day = 0 /\ date = [y |-> 1958, m |-> 1, d |-> 1]
Next == /\ day < 65535
        /\ day' = day + 1
        /\ date' = IF date.d < DaysIn(date.y, date.m) THEN [date EXCEPT !.d = @ + 1]
                   ELSE IF date.m < 12 THEN [date EXCEPT !.d = 1, !.m = @ + 1]
                   ELSE [y |-> date.y + 1, m |-> 1, d |-> 1]
\* the closed formulas are what counting says
CivilIsCounted == Civil(day) = date
NumberIsCounted == DayNumber(date.y, date.m, date.d) = day - Epoch70
YearDay == DayOfYear(date.y, date.m, date.d) = day - (DayNumber(date.y, 1, 1) + Epoch70) + 1
Spelled == LET g == [y |-> date.y, m |-> date.m, d |-> date.d, H |-> 23, M |-> 59, S |-> day % 60]
               b == SelectSeq(DateText(g), LAMBDA c : c \in 48..57) \o <<90>> IN
           GenGood(b) /\ GenParts(b) = g /\ Parts(GenInstant(b)) = g
Emit == ((date.d >= 28 /\ date.m \in {2, 12}) \/ (date.d = 1 /\ date.m \in {1, 3}) \/ day \in {0, 65535}) => PrintT("@E " \o ToJson([day |-> day, date |-> date]))
=============================================================================
