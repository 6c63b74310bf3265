------------------------------- MODULE OmtpMC -------------------------------
(* All small OpenMTP-IDS images, their files, and sessions with two images. *)
EXTENDS OmtpFile, TLC, Json
CONSTANTS Depth
VARIABLES phase, shape, did

\* a shape: per record the pixels of its lines
Pixels == {<<>>, <<7>>, <<200, 9>>}
LinesOfRec == UNION {[1..k -> Pixels] : k \in 0..2}
Shapes == UNION {[1..k -> LinesOfRec] : k \in 0..2}
Line(px, i, pad) == [nums |-> <<16 + Len(px) + pad, i, 3, Len(px), (<<4, 6, 1, 4>>)[1 + (i % 4)], 1, 2, 3>>, px |-> px]
RECURSIVE Before(_, _)
Before(sh, k) == IF k = 1 THEN 0 ELSE Len(sh[k - 1]) + Before(sh, k - 1)
Image(sh, pad, rl) ==
  [fortran |-> <<0, 1>>,
   nums |-> <<Len(sh) + 1, 1998, 12, 13, 30, 1999, 300, 14, 1, 3, 1, 6, 4, 20, rl, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>,
   sat |-> <<77, 69, 84, 32, 53, 0, 0, 0>>,
   recs |-> [k \in DOMAIN sh |-> [fortran |-> <<0, 1>>, nums |-> <<8, Len(sh[k]), 5, 0>>,
                                  lines |-> [j \in DOMAIN sh[k] |-> Line(sh[k][j], Before(sh, k) + j - 1, pad)]]]]

\* files for the sessions
SessionShapes == {<<>>, << <<<<7>>, <<200>>>>, <<<<9>>>> >>, << <<>>, <<<<1, 2>>, <<>>>> >>}
Slots == {"a", "b"}
Init == \/ phase = "shape" /\ shape = <<>> /\ did = <<>>
        \/ phase = "session" /\ shape = <<>> /\ did = <<>>
Shape == /\ phase = "shape" /\ phase' = "shaped" /\ did' = <<>>
         /\ \E sh \in Shapes, pad \in {0, 2}, rl \in {58, 61} : shape' = <<sh, pad, rl>>
Do(x) == did' = Append(did, x)
Session ==
  /\ phase = "session" /\ Len(did) < Depth /\ UNCHANGED <<phase, shape>>
  /\ \/ \E s \in Slots, sh \in SessionShapes, cut \in {0, 1} : Do([op |-> "oread", slot |-> s, sh |-> sh, cut |-> cut])
     \/ \E s \in Slots : \/ Do([op |-> "oset", slot |-> s, i |-> 1, v |-> 2])
                         \/ Do([op |-> "owrite", slot |-> s, file |-> "f"])
                         \/ Do([op |-> "oread", slot |-> s, file |-> "f"])
                         \/ Do([op |-> "oaddrec", slot |-> s, rec |-> 1])
                         \/ Do([op |-> "odropline", slot |-> s, rec |-> 1])
                         \/ Do([op |-> "oassign", slot |-> s, from |-> IF s = "a" THEN "b" ELSE "a"])
Next == Shape \/ Session

\* an image comes back from the file it was written to, whatever follows; no shorter file will do
RoundTrip == phase = "shaped" =>
  LET m == Image(shape[1], shape[2], shape[3]) b == Written(m) IN
  /\ Writable(m)
  /\ Parse(b) = [ok |-> TRUE, v |-> m] /\ Parse(b \o <<1, 2>>) = [ok |-> TRUE, v |-> m]
  /\ \A k \in 0..(Len(b) - 1) : ~Parse(SubSeq(b, 1, k)).ok
\* ranges of lines join
Ranges == phase = "shaped" =>
  LET m == Image(shape[1], shape[2], shape[3]) n == Len(AllLines(m.recs)) IN
  \A x \in 0..(n + 1) : \A y \in x..(n + 1) : LinesBetween(m, 0, x) \o LinesBetween(m, x, y) = LinesBetween(m, 0, y)

Bytes(o) == LET b == Written(Image(o.sh, 0, 58)) IN SubSeq(b, 1, Len(b) - o.cut)
Emit == /\ phase = "shaped" => PrintT("@E " \o ToJson([shape |-> TRUE, bytes |-> Written(Image(shape[1], shape[2], shape[3])), n |-> Len(AllLines(Image(shape[1], 0, 58).recs))]))
        /\ (phase = "session" /\ Len(did) = Depth) =>
             PrintT("@E " \o ToJson([ops |-> [k \in DOMAIN did |-> IF "sh" \in DOMAIN did[k] THEN [op |-> "put", slot |-> did[k].slot, bytes |-> Bytes(did[k])] ELSE did[k]]]))
=============================================================================
