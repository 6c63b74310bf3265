----------------------------- MODULE TextsTrace -----------------------------
EXTENDS Texts, TraceBase
MyStarts(r) == {0}
Eq(d, v) == d.defined => d.text = v
TextOK(r) ==
    LET o == r.out s == r.s p == r.p d == DecodeC(s)
    IN /\ o.lstrip = LStrip(s) /\ o.rstrip = RStrip(s) /\ o.strip = Strip(s)
       /\ o.upper = ToUpper(s) /\ o.lower = ToLower(s)
       /\ o.starts = StartsWith(s, p) /\ o.ends = EndsWith(s, p)
       /\ o.split = Split(s, p) /\ o.full = SplitFull(s, p) /\ o.rest = Rest(s, p)
       /\ o.again = Split(s, p)
       /\ o.join = Join(p, Split(s, p))
       /\ o.base = BaseName(s) /\ o.dir = DirName(s)
       /\ o.append = Append2(s, p) /\ o.append3 = Append2(Append2(s, p), s)
       /\ o.norm = Normal(s) /\ o.normj = Normal(Append2(s, p))
       /\ o.encc = EncodeC(s)
       /\ (d.defined => o.decc = [text |-> d.text, read |-> d.read])
       /\ o.encu = EncodeUrl(s) /\ Eq(DecodeUrl(s), o.decu)
       /\ o.enc64 = Encode64(s) /\ Eq(Decode64(s), o.dec64)
MyStep(s, r) == CASE r.op = "text" -> IF TextOK(r) THEN {s} ELSE {}
                  [] OTHER -> {}
=============================================================================
