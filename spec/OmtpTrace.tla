----------------------------- MODULE OmtpTrace ------------------------------
(* What the real code was seen to do with OpenMTP-IDS images.
   State: the images in the slots and the files; "?" of what is not defined. *)
EXTENDS OmtpFile, TraceBase

Blank == [fortran |-> <<0, 1>>, nums |-> Zeros(25), sat |-> <<77, 69, 84, 69, 79, 83, 65, 84>>, recs |-> <<>>]
Slots == {"a", "b"}
Known(x) == [known |-> TRUE, v |-> x]
Unknown == [known |-> FALSE]
MyStarts(r) == {[im |-> [s \in Slots |-> Known(Blank)], files |-> [f \in {} |-> Unknown]]}

Refused(r) == "exc" \in DOMAIN r.out /\ r.out.exc \in {"std", "cstr"}
Answer(r) == ~("exc" \in DOMAIN r.out)
Keep(s, ok) == IF ok THEN {s} ELSE {}
File(s, f) == IF f \in DOMAIN s.files THEN s.files[f] ELSE Unknown
WithFile(s, f, x) == [s EXCEPT !.files = [g \in DOMAIN @ \union {f} |-> IF g = f THEN x ELSE @[g]]]
ParseFile(s, f) == Parse(s.files[f].v)
Padded(t, n) == [k \in 1..n |-> IF k <= Len(t) THEN t[k] ELSE 0]
\* the name as text: up to a zero
NameOf(m) == [m EXCEPT !.sat = [k \in 1..8 |-> IF \E j \in 1..k : @[j] = 0 THEN 0 ELSE @[k]]]
Without(q) == SubSeq(q, 1, Len(q) - 1)

\* changes of an image
Changed(m, r) ==
  CASE r.op = "oset" -> [m EXCEPT !.nums[r.i] = r.v]
    [] r.op = "osat" -> [m EXCEPT !.sat = Padded(r.text, 8)]
    [] r.op = "orset" -> [m EXCEPT !.recs[r.rec].nums[r.i] = r.v]
    [] r.op = "olset" -> [m EXCEPT !.recs[r.rec].lines[r.line].nums[r.i] = r.v]
    [] r.op = "opx" -> [m EXCEPT !.recs[r.rec].lines[r.line].px = r.px]
    [] r.op = "oaddrec" -> [m EXCEPT !.recs = Append(@, @[r.rec])]
    [] r.op = "odroprec" -> [m EXCEPT !.recs = Without(@)]
    [] r.op = "oaddline" -> [m EXCEPT !.recs[r.rec].lines = Append(@, @[r.line])]
    [] r.op = "odropline" -> [m EXCEPT !.recs[r.rec].lines = Without(@)]
Can(m, r) ==
  /\ "rec" \in DOMAIN r => r.rec \in DOMAIN m.recs
  /\ "line" \in DOMAIN r => r.line \in DOMAIN m.recs[r.rec].lines
  /\ r.op = "odroprec" => m.recs # <<>>
  /\ r.op = "odropline" => m.recs[r.rec].lines # <<>>
Changes == {"oset", "osat", "orset", "olset", "opx", "oaddrec", "odroprec", "oaddline", "odropline"}

SamePixels(p, ln, x) == \A k \in DOMAIN x : x[k] = RulePixel(p, ln, Left0 + ((37 * ln + 11 * (k - 1)) % 256))
SectorOk(p, o) ==
  IF ~SectorOf(p) THEN o.exit # 0
  ELSE LET n == Cardinality(SectorLines(p))
           per == o.recs[1].nums[NoLines] IN
       /\ o.exit = 0 /\ o.whole
       /\ \A k \in 1..25 : k \in {NoRecords, RecordLength} \/ o.head[k] = p.head[k]
       /\ o.head[NoRecords] = Len(o.recs) + 1
       /\ \A k \in DOMAIN o.recs : /\ o.recs[k].nums = <<8, per, per * 272 + 8, 0>>
                                   /\ o.head[RecordLength] = o.recs[k].nums[3]
       /\ per >= 1 /\ Len(o.lines) = per * Len(o.recs) /\ Len(o.lines) >= n /\ Len(o.lines) - n < per
       /\ \A k \in DOMAIN o.lines : LET at == From + k - 1 src == RuleNums(p, at) IN
            IF k <= n
            THEN /\ o.lines[k].nums = <<272, src[2], Left0, 256, src[5], src[6], src[7], src[8]>>
                 /\ SamePixels(p, at, o.lines[k].px)
            ELSE o.lines[k].nums = <<272, 0, 0, 256, 0, 0, 0, 0>> /\ \A j \in DOMAIN o.lines[k].px : o.lines[k].px[j] = 0

MyStep(s, r) ==
  CASE r.op = "oput" -> {WithFile(s, r.file, Known(r.bytes))}
    [] r.op = "oread" ->
         IF ~File(s, r.file).known THEN {[s EXCEPT !.im[r.slot] = Unknown]}
         ELSE LET m == ParseFile(s, r.file) IN
              IF m.ok THEN IF Answer(r) /\ r.out.ok THEN {[s EXCEPT !.im[r.slot] = Known(m.v)]} ELSE {}
              ELSE IF Refused(r) THEN {[s EXCEPT !.im[r.slot] = Unknown]} ELSE {}
    [] r.op = "oreadnone" -> IF Refused(r) THEN {[s EXCEPT !.im[r.slot] = Unknown]} ELSE {}
    [] r.op = "ofile" -> Keep(s, File(s, r.file).known => Answer(r) /\ r.out.bytes = s.files[r.file].v)
    [] r.op = "otool" ->
         IF ~File(s, r.file).known THEN {s}
         ELSE LET m == ParseFile(s, r.file) IN
              Keep(s, Answer(r) /\
                CASE r.tool = "pgm" -> IF m.ok THEN /\ (r.out.exit = 0) <=> PgmDone(m.v)
                                                    /\ \A f \in PgmFiles : PgmOk(m.v, f, r.out.files[f])
                                       ELSE r.out.exit # 0
                  [] r.tool = "write" -> IF m.ok THEN r.out.exit = 0 /\ r.out.bytes = Written(m.v) ELSE r.out.exit # 0
                  [] r.tool = "debug" -> (r.out.exit = 0) <=> m.ok
                  [] r.tool = "sector" -> r.out.exit # 0)
    [] r.op = "osector" -> Keep(s, Answer(r) /\ SectorOk(r.p, r.out))
    [] r.op = "oassign" -> {[s EXCEPT !.im[r.slot] = s.im[r.from]]}
    [] ~s.im[r.slot].known -> {IF r.op = "owrite" THEN WithFile(s, r.file, Unknown) ELSE s}
    [] r.op = "odump" -> Keep(s, Answer(r) /\ r.out.image = NameOf(s.im[r.slot].v))
    [] r.op = "olines" ->
         LET m == s.im[r.slot].v n == Len(AllLines(m.recs)) IN
         Keep(s, Answer(r) /\ r.out.lines = CASE r.which = "all" -> LinesBetween(m, 0, n)
                                              [] r.which = "one" -> LinesBetween(m, r.from, r.from + 1)
                                              [] OTHER -> IF r.to <= r.from THEN <<>> ELSE LinesBetween(m, r.from, r.to))
    [] r.op = "owrite" ->
         LET m == s.im[r.slot].v IN
         IF Writable(m) THEN IF Answer(r) /\ r.out.ok THEN {WithFile(s, r.file, Known(Written(m)))} ELSE {}
         ELSE IF Refused(r) THEN {WithFile(s, r.file, Unknown)} ELSE {}
    [] r.op = "ofull" -> Keep(s, Refused(r))
    [] r.op \in Changes ->
         IF Can(s.im[r.slot].v, r) THEN IF Answer(r) THEN {[s EXCEPT !.im[r.slot] = Known(Changed(s.im[r.slot].v, r))]} ELSE {}
         ELSE Keep(s, Answer(r) /\ r.out = [ok |-> FALSE])
    [] OTHER -> {}
=============================================================================
