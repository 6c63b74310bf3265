--------------------------- MODULE XritNamesTrace ---------------------------
EXTENDS XritNames, TraceBase
\* state: nothing is carried from one name to the next
MyStarts(r) == {"any"}
ParsedAs(o) == IF "exc" \in DOMAIN o THEN IF o.exc = "std" THEN Refused ELSE [bad |-> TRUE]
               ELSE Product(o.dir, o.res, o.p1, o.p2, o.time)
MyStep(s, r) ==
    LET good == CASE r.op = "valid" -> r.out.valid = Recognised(r.name)
                  [] r.op = "parse" -> ParsedAs(r.out) = Parse(r.name)
                  [] r.op = "other" -> ParsedAs(r.out) = (LET p == Parse(r.name) IN IF p.ok THEN OtherChannel(p, r.chan) ELSE p)
                  [] r.op = "complete" -> LET p == Parse(r.name) IN
                                          (r.out.complete <=> (p.ok /\ Complete(p)))
                  [] r.op = "find" ->
                        LET F == ToSet(r.files)
                            p == Product(<<>>, r.res, r.p1, r.p2, r.time)
                            pro == TheOnly(Prologues(F, p))
                            epi == TheOnly(Epilogues(F, p))
                            seg == Sorted(Segments(F, p))
                            Same(o, w) == IF w.ok THEN o.ok /\ o.name = w.name ELSE ~o.ok
                        IN /\ Same(r.out.pro, pro)
                           /\ Same(r.out.epi, epi)
                           /\ (IF seg = <<>> THEN ~r.out.seg.ok ELSE r.out.seg.ok /\ r.out.seg.names = seg)
                  [] OTHER -> FALSE
    IN IF good THEN {s} ELSE {}
=============================================================================
