--------------------------- MODULE SegAccessTrace ---------------------------
EXTENDS SegAccess, TraceBase
\* state: the product read and the two segments the model holds decoded
MyStarts(r) == {[p |-> <<>>, cache |-> <<>>]}
ProductOf(r) == [hrv |-> r.hrv, cols |-> r.cols, segl |-> r.segl, bpp |-> r.bpp, mirrored |-> r.cfac < 0,
                 present |-> {r.segs[k].seq : k \in 1..Len(r.segs)} \ {0},
                 cov |-> [ls |-> r.cov[1], ln |-> r.cov[2], lw |-> r.cov[4], us |-> r.cov[5], un |-> r.cov[6], uw |-> r.cov[8]]]
MyStep(s, r) ==
    CASE r.op = "product" ->
            LET p == ProductOf(r) IN
            IF p.present = {} \/ r.broken THEN IF "exc" \in DOMAIN r.out /\ r.out.exc = "std" THEN {s} ELSE {}
            ELSE IF /\ "exc" \notin DOMAIN r.out
                    /\ r.out.columns = r.cols /\ r.out.hrv = r.hrv
                    /\ r.out.lines = r.segl * r.end
                 THEN {[p |-> p, cache |-> <<>>]} ELSE {}
      [] r.op = "line" ->
            LET p == s.p
                g == SegOf(p, r.n)
                there == HasData(p, r.n)
                miss == there /\ Miss(s.cache, g)
            IN IF /\ "exc" \notin DOMAIN r.out
                  /\ r.out.samples = LineOf(p, r.n)
                  /\ r.out.start = StartOf(p, r.n)
                  /\ r.out.decoded <= (IF miss THEN 1 ELSE 0)
               THEN {[s EXCEPT !.cache = IF there THEN Use(@, g) ELSE @]} ELSE {}
      \* which of a whole range of lines start where: run lengths of <start, has data>
      [] r.op = "runs" ->
            LET p == s.p
                N == IF p.hrv THEN FullHRV ELSE FullDisc
            IN IF \A k \in 1..Len(r.out.starts) : r.out.starts[k] = StartOf(p, r.first + k - 1)
               THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
