---------------------------- MODULE XritFilesMC ----------------------------
(* A directory in which files appear one after the other; at every point the
   product's prologue, epilogue and segments are what its identity says.     *)
EXTENDS XritNames, TLC, Json
CONSTANTS N
VARIABLES files, n

H == <<72>>
MSG1 == <<77, 83, 71, 49>>
IR == <<73, 82, 95, 49, 48, 56>>
HRV == <<72, 82, 86>>
T == <<50, 48, 48, 54, 49, 49, 49, 52, 49, 50, 48, 48>>
P == Product(<<100>>, H, MSG1, IR, T)
Name(res, nnn, sat, p1, p2, what, time, tail) ==
    res \o <<Dash>> \o nnn \o <<Dash>> \o sat \o <<Dash>> \o PadTo(p1, 12) \o <<Dash>> \o PadTo(p2, 9)
    \o <<Dash>> \o PadTo(what, 9) \o <<Dash>> \o time \o <<Dash>> \o tail
Z3 == <<48, 48, 48>>
SAT == PadTo(MSG1, 6)
C == <<67, 95>>
U == <<95, 95>>
Seg(k) == <<48, 48, 48, 48, 48 + (k \div 10), 48 + (k % 10)>>
Univ == <<
  Name(H, Z3, SAT, MSG1, <<>>, PRO, T, U),
  Name(H, Z3, SAT, MSG1, <<>>, EPI, T, U),
  Name(H, Z3, SAT, MSG1, IR, Seg(1), T, C),
  Name(H, Z3, SAT, MSG1, IR, Seg(10), T, C),
  Name(H, <<48, 48, 49>>, SAT, MSG1, <<>>, PRO, T, U),          \* a second prologue
  Name(H, Z3, PadTo(<<77>>, 6), MSG1, <<>>, EPI, T, U),         \* a second epilogue
  Name(H, Z3, SAT, MSG1, HRV, Seg(2), T, C),                     \* another channel
  Name(H, Z3, SAT, MSG1, IR, Seg(2), T, U),                      \* not compressed-form suffix
  Name(<<76>>, Z3, SAT, MSG1, IR, Seg(3), T, C),                 \* another resolution
  Name(H, Z3, SAT, <<77, 83, 71, 50>>, <<>>, PRO, T, U),         \* another satellite
  Name(H, Z3, SAT, MSG1, IR, Seg(2), Append(T, 48), C),          \* another time
  Name(H, Z3, SAT, MSG1, IR, Seg(2), T, C)
>>
Init == files = {} /\ n = 0
Next == /\ n < N /\ n' = n + 1
        /\ (files' = files \/ files' = files \cup {Univ[n + 1]})

OwnNames == \A f \in Segments(files, P) : LET q == Parse(<<100, Slash>> \o f) IN q = P
Exact == /\ Prologues(files, P) = files \cap {Univ[1], Univ[5]}
         /\ Epilogues(files, P) = files \cap {Univ[2], Univ[6]}
         /\ Segments(files, P) = files \cap {Univ[3], Univ[4], Univ[12]}
Ordered == LET s == Sorted(Segments(files, P)) IN \A a, b \in 1..Len(s) : a < b => Before(s[a], s[b])
Emit == n = N => PrintT("@E " \o ToJson([res |-> H, p1 |-> MSG1, p2 |-> IR, time |-> T, files |-> SetToSeq(files)]))
=============================================================================
