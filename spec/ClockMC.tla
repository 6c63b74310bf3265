------------------------------ MODULE ClockMC ------------------------------
(* The calendar of Sky, walked day by day from a start: each day's date is the
   successor of the day before by the rules everyone knows; days on which a
   month, a year or a century rule turns are emitted.                        *)
EXTENDS Sky, TLC, Json
CONSTANTS From, To
VARIABLES day, date, doy
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Next1(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
            ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
Init == day = From /\ date = Civil(From) /\ doy = DayOfYear(date.y, date.m, date.d)
Emit == IF date'.d = 1 \/ date'.d > 27 THEN PrintT("@E " \o ToString(day')) ELSE TRUE
Next == /\ day < To /\ day' = day + 1 /\ date' = Next1(date)
        /\ doy' = IF date'.y # date.y THEN 1 ELSE doy + 1
        /\ Emit
Spec == Init /\ [][Next]_<<day, date, doy>>
\* what the model of the code computes is the calendar
Right == Civil(day) = date /\ DayOfYear(date.y, date.m, date.d) = doy
Zero == day = 0 => date = [y |-> 1958, m |-> 1, d |-> 1]
============================================================================
