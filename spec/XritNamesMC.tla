---------------------------- MODULE XritNamesMC ----------------------------
(* Names grow token by token; every name reached is parsed.  Products are also
   written out in both forms and must be read back.                          *)
EXTENDS XritNames, TLC, Json
CONSTANTS MaxTokens
VARIABLES name, toks

Tokens == {<<47>>, <<58>>, <<45>>, <<95>>, <<72>>, <<46, 46>>, <<45, 67, 95>>, <<73, 82>>}
Init == name = <<>> /\ toks = 0
Next == toks < MaxTokens /\ \E t \in Tokens : name' = name \o t /\ toks' = toks + 1

\* what the laws are checked on
Dirs == {<<46>>, <<47>>, <<100>>, <<47, 100>>, <<100, 47, 58, 45>>}
Ids == {<<72>>, <<77, 49>>, <<95, 77>>, <<73, 82, 95, 49>>}
Chan == {<<73, 82, 95, 49>>, <<86>>}
Times == {<<50, 48>>, <<49>>}
Prods == {Product(d, r, a, b, t) : d \in Dirs, r \in Ids, a \in Ids, b \in Chan, t \in Times}

ShortLaw == \A p \in Prods : Parse(Short(p)) = p /\ Recognised(Short(p))
SegmentLaw == \A p \in Prods : LET s == Segment(p, <<48, 48, 48>>, <<77, 95, 95, 95, 95, 95>>, PadTo(<<48, 49>>, 9))
                               IN Recognised(s) /\ Parse(s) = p
ASSUME ShortLaw
ASSUME SegmentLaw
\* whatever parses was recognised, and the parts are parts of the name
Sound == Parse(name).ok => Recognised(name)
Bounded == LET p == Parse(name) IN p.ok => Len(p.res) + Len(p.p1) + Len(p.p2) + Len(p.time) < Len(name)
Emit == name # <<>> => PrintT("@E " \o ToJson(name))
=============================================================================
