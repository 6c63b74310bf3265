------------------------------ MODULE HritMC -------------------------------
(* One header object reads file after file.  A file is put together record by
   record; what the object holds afterwards must be what the last readable
   file says, whatever it held before. *)
EXTENDS HritFile, TLC, Json

CONSTANTS MaxRecords, MaxReads, Two

VARIABLES recs,     \* the records of the file being written, by number
          held,     \* what the reader holds: <<>> or <<a decoded header>>
          hist      \* files read so far

Fill(n, c) == [k \in 1..n |-> (c + k) % 251]
GeosName(t) == <<71, 69, 79, 83, 40>> \o t \o <<41>> \o [k \in 1..(26 - Len(t)) |-> 32]
PolarName == <<80, 79, 76, 65, 82, 40, 54, 48, 44, 45, 49, 48, 46, 53, 41>> \o [k \in 1..17 |-> 32]
Universe == <<
  Rec(1, <<10>> \o B2(7) \o B2(2) \o <<0>>),
  Rec(1, <<16>> \o B2(300) \o B2(1) \o <<2>>),
  Rec(2, GeosName(<<43, 48, 48, 57, 46, 53>>) \o Fill(16, 130)),
  Rec(2, PolarName \o Fill(16, 3)),
  Rec(3, <<65, 66, 67>>),
  Rec(3, <<>>),
  Rec(4, Fill(61, 64)),
  Rec(5, Fill(7, 9)),
  Rec(6, <<72, 105>>),
  Rec(7, Fill(9, 200)),
  Rec(128, <<1, 65, 9, 0, 5, 0, 1, 0, 8, 3>>),
  Rec(129, Fill(26, 1)),
  \* ones that cannot be read
  Rec(6, <<>>),
  Rec(8, <<1, 2>>),
  Rec(1, <<1, 2, 3>>),
  <<5, 0, 0>>,
  <<5, 0, 40>>,
  <<5>> >>

\* in histories of several files, fewer kinds of record
Choice == IF Two THEN {1, 3, 5, 8, 9, 12, 14} ELSE DOMAIN Universe

FileOf(rs) == Encode(0, [k \in DOMAIN rs |-> Universe[rs[k]]], 0)
Dec(rs) == Decode(FileOf(rs), Len(FileOf(rs)))

Init == recs = <<>> /\ held = <<>> /\ hist = <<>>
Add == /\ Len(recs) < MaxRecords
       /\ Len(hist) < MaxReads
       /\ \E k \in Choice : recs' = Append(recs, k)
       /\ UNCHANGED <<held, hist>>
Read == /\ Len(hist) < MaxReads
        /\ LET d == Dec(recs) IN held' = IF d.ok THEN <<d>> ELSE <<>>
        /\ hist' = Append(hist, recs) /\ recs' = <<>>
Next == Add \/ Read

Good == 1..12
\* a file of readable records says what its records say, each on its own: nothing depends on their neighbours
\* (but the line quality needs the image structure to come first)
LastWins ==
  (recs # <<>> /\ (\A k \in DOMAIN recs : recs[k] \in 1..11)) =>
    LET d == Dec(recs) IN
    /\ d.ok /\ d.hlen = Len(FileOf(recs))
    /\ \A p \in DOMAIN NoParts :
         LET own == {k \in DOMAIN recs : Dec(<<recs[k]>>).parts[p] # <<>>} IN
         d.parts[p] = IF own = {} THEN <<>> ELSE Dec(<<recs[CHOOSE k \in own : \A j \in own : j <= k]>>).parts[p]
\* an unreadable record makes the whole file unreadable, wherever it is
Spoiled == (\E k \in DOMAIN recs : recs[k] >= 13) => ~Dec(recs).ok \/ \E k \in DOMAIN recs : recs[k] \in {16, 17, 18} /\ k < Len(recs)
NeedsStructure == recs = <<12>> => ~Dec(recs).ok
\* reading forgets: what is held is what the last file alone says
Forgets == hist # <<>> => (held # <<>>) = Dec(hist[Len(hist)]).ok /\ (held # <<>> => held[1] = Dec(hist[Len(hist)]))
\* a header cut anywhere is refused
CutRefused == (recs # <<>> /\ Len(recs) <= 1) =>
   LET f == FileOf(recs) IN \A n \in 0..(Len(f) - 1) : ~Decode(SubSeq(f, 1, n), n).ok

Emit == (Len(hist) = MaxReads) => PrintT("@E " \o ToJson([files |-> [k \in DOMAIN hist |-> FileOf(hist[k])]]))
=============================================================================
