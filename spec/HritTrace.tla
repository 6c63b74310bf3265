----------------------------- MODULE HritTrace -----------------------------
(* What the real readers of HRIT files were seen to do.
   hread: one header object, kept over the whole case, reads the file
   fread: header and data field of a file are read, and printed
   fields: fields of the prologue or epilogue just read                        *)
EXTENDS HritFile, TraceBase

\* state: the file read last: <<>> or <<[hd, d]>>
MyStarts(r) == {<<>>}

Exc(r) == "exc" \in DOMAIN r.out /\ r.out.exc = "std"
Answer(r) == ~("exc" \in DOMAIN r.out)

SameNum(seen, want) == want = <<>> \/ REq(RBits32(seen[1], seen[2]), want[1])
SameNavig(seen, want) ==
  IF want = <<>> THEN seen = <<>>
  ELSE /\ seen # <<>>
       /\ LET s == seen[1] w == want[1] IN
          /\ s.name = w.name /\ s.cfac = w.cfac /\ s.lfac = w.lfac /\ s.coff = w.coff /\ s.loff = w.loff
          /\ CASE w.kind = "geos" -> SameNum(s.lon, w.nums[1])
               [] w.kind = "polar" -> SameNum(s.plane, w.nums[1]) /\ SameNum(s.plon, w.nums[2])
               [] OTHER -> TRUE
SameHeader(seen, want) ==
  /\ seen.type = want.type /\ seen.hlen = want.hlen /\ seen.dlen = want.dlen
  /\ \A p \in DOMAIN NoParts \ {"navig"} : seen.parts[p] = want.parts[p]
  /\ SameNavig(seen.parts.navig, want.parts.navig)

SameMessage(seen, want, d) ==
  /\ seen.what = want.what
  /\ CASE want.what = "samples" -> seen.n = want.n
       [] want.what = "sgs" -> seen.n = want.n
       [] want.what \in {"dump", "text"} -> seen.bytes = Bytes(d, 0, want.n)
       [] want.what = "keys" ->
            /\ seen.n = want.n
            /\ \A j \in 1..want.n : LET o == 197 * (j - 1) IN
                 seen.keys[j] = [station |-> Bytes(d, o, 2), number |-> Byte(d, o + 2), key |-> Bytes(d, o + 3, 192), crc |-> Bytes(d, o + 195, 2)]
       [] OTHER -> TRUE

\* what a file with these bytes is to be taken for
FileOutcome(r) ==
   LET w == WholeFile(r.head, r.d)
       hl == IF w.n < 8 THEN 0 ELSE U4(Bytes(w, 4, 4), 0)
       hd == Decode(IF hl > Len(r.head) /\ hl <= w.n THEN Bytes(w, 0, hl) ELSE r.head, w.n) IN
   IF ~hd.ok THEN [ok |-> FALSE]
   ELSE LET d == [w EXCEPT !.n = w.n - hd.hlen, !.skip = hd.hlen]
            m == Message(hd, d) IN
        IF m.ok THEN [ok |-> TRUE, hd |-> hd, m |-> m, d |-> d] ELSE [ok |-> FALSE]

TopOf(what) == IF what = "prologue" THEN "Prologue" ELSE "Epilogue"

MyStep(s, r) ==
  CASE r.op = "hread" ->
         LET d == Decode(r.head, Len(r.head)) IN
         IF IF d.ok THEN Answer(r) /\ SameHeader(r.out, d) ELSE Exc(r) THEN {s} ELSE {}
    [] r.op = "fread" ->
         LET f == FileOutcome(r) IN
         IF ~f.ok THEN IF Exc(r) THEN {<<>>} ELSE {}
         ELSE IF Answer(r) /\ SameHeader(r.out.header, f.hd) /\ SameMessage(r.out, f.m, f.d) THEN {<<f>>} ELSE {}
    [] r.op = "fields" ->
         IF s = <<>> THEN {}
         ELSE LET top == TopOf(s[1].m.what) IN
              IF Answer(r) /\ \A k \in DOMAIN r.paths :
                   LET p == r.paths[k] t == TypeAt(top, p) IN
                   r.out.vals[k] = Shown(t, Bytes(s[1].d, Offset(top, p), BasicSize(t)))
              THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
