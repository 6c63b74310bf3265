---------------------------- MODULE NativeTrace ----------------------------
(* What the real reader of native files was seen to do. *)
EXTENDS NativeFile, TraceBase

MyStarts(r) == {Closed}

Exc(r) == "exc" \in DOMAIN r.out /\ r.out.exc = "std"
Answer(r) == ~("exc" \in DOMAIN r.out)
Keep(s, ok) == IF ok THEN {s} ELSE {}

\* the fields of a record of bytes at p
SameRecord(f, n, p, seen) ==
  \A k \in DOMAIN Fields(n) : LET fd == Fields(n)[k] o == SizeOfFields(SubSeq(Fields(n), 1, k - 1)) IN
     seen[fd.name] = Shown(fd.type, Bytes(f, p + o, Times(fd.dims) * BasicSize(fd.type)))
SameFields(f, base, top, r) ==
  \A k \in DOMAIN r.paths : LET p == r.paths[k] t == TypeAt(top, p) IN
     r.out.vals[k] = Shown(t, Bytes(f, base + Offset(top, p), BasicSize(t)))

Chosen(s, c) == s.phase = "read" /\ c \in s.m.sel
MyStep(s, r) ==
  CASE r.op = "nopen" -> IF s.phase = "closed" THEN IF Answer(r) /\ r.out.ok THEN {Opened(r.d)} ELSE {} ELSE {[phase |-> "lost"]}
    [] r.op = "nmissing" -> IF s.phase = "closed" THEN Keep(s, Answer(r) /\ ~r.out.ok) ELSE {[phase |-> "lost"]}
    [] r.op = "nclose" -> IF Answer(r) THEN {Closed} ELSE {}
    [] r.op = "nread" ->
         IF s.phase \in {"lost", "read"} THEN {[phase |-> "lost"]}
         ELSE LET m == AfterRead(s) IN
              IF m.ok THEN IF Answer(r) THEN {[phase |-> "read", f |-> s.f, m |-> m]} ELSE {}
              ELSE IF Exc(r) THEN {IF s.phase = "closed" THEN s ELSE [phase |-> "lost"]} ELSE {}
    [] s.phase = "lost" -> {s}
    [] r.op = "nsize" -> Keep(s, Answer(r) /\ IF Chosen(s, r.ch) THEN r.out.lines = s.m.nl[r.ch] /\ r.out.pixels = s.m.nc[r.ch]
                                               ELSE r.out.lines = 0 /\ r.out.pixels = 0)
    [] r.op \in {"ndata", "npgm"} -> Keep(s, Answer(r) /\ IF Chosen(s, r.ch) THEN r.out.what = "image" /\ r.out.rows = Image(s.f, s.m, r.ch) ELSE r.out.what = "none")
    [] r.op = "nlines" ->
         Keep(s, Answer(r) /\ LET ls == IF Chosen(s, r.ch) THEN LinesOf(s.m, r.ch) ELSE <<>> IN
           /\ Len(r.out.list) = Len(ls)
           /\ \A k \in DOMAIN ls : LET x == r.out.list[k] IN
                /\ SameRecord(s.f, "PacketHeader", ls[k].at, x.packet)
                /\ SameRecord(s.f, "LineHeader", ls[k].at + PktLen, x.head)
                /\ x.n = NSamples(ls[k]) /\ x.samples = Ends(s.f, ls[k]))
    [] s.phase # "read" -> Keep(s, TRUE)
    [] r.op = "ntext" -> Keep(s, Answer(r) /\ (\A k \in 0..47 : r.out.texts[k + 1] = InfoText(s.f, k))
                                /\ SameRecord(s.f, "PacketHeader", MphLen, r.out.hpacket) /\ SameRecord(s.f, "PacketHeader", s.m.trailer, r.out.tpacket))
    [] r.op = "nheader" -> Keep(s, Answer(r) /\ SameFields(s.f, MphLen + PktLen + 1, "NativeHeader", r))
    [] r.op = "ntrailer" -> Keep(s, Answer(r) /\ SameFields(s.f, s.m.trailer + PktLen, "Epilogue", r))
    [] r.op = "nprint" -> Keep(s, Answer(r) /\ r.out.ok)
    [] OTHER -> {}
=============================================================================
