---------------------------- MODULE HritDataMC -----------------------------
(* Data fields of every type.  A transmission grows (Arrive) until it is as
   long as, shorter or longer than what its header announces; the reader may
   be asked at any time. *)
EXTENDS HritFile, TLC, Json
VARIABLES kind, who, compr, fmt, claim, got

Annot(w) == LET p1 == CASE w = "msg" -> <<77, 83, 71, 50>> [] w = "goes" -> <<71, 79, 69, 83>> [] OTHER -> <<77, 69, 84, 55>>
                full == <<72, 45, 48, 48, 48, 45, 77, 83, 71, 50, 95, 95, 45>> \o p1 \o [k \in 1..8 |-> 95] \o <<45>> \o [k \in 1..9 |-> 95] \o <<45>>
                        \o [k \in 1..9 |-> 95] \o <<45>> \o [k \in 1..12 |-> 50] \o <<45, 67, 95>> IN
            full \o [k \in 1..(61 - Len(full)) |-> 0]
Recs(k, w, c, f) == (IF w = "none" THEN <<>> ELSE <<Rec(4, Annot(w))>>)
   \o (IF k = 0 /\ c < 3 THEN <<Rec(1, <<10>> \o B2(3) \o B2(2) \o <<c>>)>> ELSE <<>>)
   \o (IF k = 0 /\ f < 9 THEN <<Rec(128, <<1, 65, 9, 0, 1, 0, 1, 0, 8, f>>)>> ELSE <<>>)

\* the least number of bytes that must be there
Least(k, w) == CASE k = 0 -> 12 [] k = 3 -> 197 [] k = 128 /\ w = "msg" -> PrologueSize [] k = 129 /\ w = "msg" -> EpilogueSize
                 [] k = 128 /\ w = "goes" -> CommonLen + 8 [] OTHER -> 1
Kinds == {0, 1, 2, 3, 128, 129, 130, 131, 144, 255}
Init == /\ kind \in Kinds /\ who \in {"none", "msg", "goes", "other"}
        /\ compr \in (IF kind = 0 THEN {0, 1, 2, 3} ELSE {0}) /\ fmt \in (IF kind = 0 THEN {0, 3, 9} ELSE {3})
        /\ claim \in (LET l == Least(kind, who) IN {0, l - 1, l, l + 1} \union (IF kind = 3 THEN {2 * l, 65537 * l} ELSE {}))
        /\ got \in {0, claim}
\* got is in {0, claim - 1, claim, claim + 1}, if these are not negative
Arrive == /\ \/ got = 0 /\ claim > 1 /\ got' = claim - 1
             \/ got = claim /\ got' = claim + 1
          /\ UNCHANGED <<kind, who, compr, fmt, claim>>
Next == Arrive

Head1 == Encode(kind, Recs(kind, who, compr, fmt), claim)
\* the length of an empty block is unspecified; foreign prologues hold a block of 8 bytes
D == [n |-> got, a |-> 7, b |-> 5, seed |-> 9, patch |-> IF kind = 128 /\ who = "goes" THEN <<[at |-> CommonLen, is |-> <<1, 0, 1, 2, 0, 0, 0, 8>>]>> ELSE <<>>, lead |-> <<>>, skip |-> 0]
Hd == Decode(Head1, Len(Head1) + got)
Msg == Message(Hd, D)

Readable == Hd.ok
\* nothing is made of bytes that are not there
Backed == Msg.ok => CASE Msg.what \in {"samples"} -> 2 * Msg.n <= got [] Msg.what = "keys" -> 197 * Msg.n <= got [] Msg.what \in {"prologue", "epilogue", "dump", "text"} -> Msg.n <= got [] OTHER -> TRUE
\* a data field shorter than announced is refused, unless nothing is made of it
Short == (got < claim /\ Msg.ok) => Msg.what = "nothing" /\ kind = 130
\* bytes beyond the data field do not matter
Extra == (got = claim + 1) => Msg = Message(Hd, [D EXCEPT !.n = claim])
Emit == got < 1000000 => PrintT("@E " \o ToJson([head |-> Head1, d |-> D]))
=============================================================================
