------------------------------ MODULE TextsMC ------------------------------
(* All short texts over the bytes that matter, with all short separators. *)
EXTENDS Texts, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxSep
VARIABLES s, p
vars == <<s, p>>
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == s \in Texts(MaxLen) /\ p \in Texts(MaxSep)
Next == UNCHANGED vars
Laws ==
    /\ s # <<>> => Join(p, Split(s, p)) = s
    /\ \A k \in DOMAIN Split(s, p) : p # <<>> => \A j \in 1..Len(s) : ~IsAt(Split(s, p)[k], p, j)
    /\ Len(Split(s, p)) > 1 => Split(s, p)[1] \o p \o Rest(s, p) = s
    /\ (StartsWith(s, p) <=> \E k \in 0..Len(s) : p = SubSeq(s, 1, k))
    /\ (EndsWith(s, p) <=> \E k \in 1..Len(s) + 1 : p = SubSeq(s, k, Len(s)))
    \* names in a directory are found again
    /\ (p # <<>> /\ \A k \in DOMAIN p : p[k] # Slash) => BaseName(Append2(s, p)) = p
    /\ (p # <<>> /\ s # <<>> /\ \A k \in DOMAIN p : p[k] # Slash) => NoSlashes(DirName(Append2(s, p))) = NoSlashes(s)
    /\ Normal(Append2(Append2(s, p), <<Dot>>)) = Normal(Append2(s, p))
    /\ s # <<>> => Normal(Append2(Normal(s), p)) = Normal(Append2(s, p))
Alone == p = <<>> =>
    /\ Normal(Normal(s)) = Normal(s)
    /\ Strip(s) = RStrip(LStrip(s))
    /\ LET d == DecodeC(EncodeC(s)) IN d.defined /\ d.text = s /\ d.read = Len(EncodeC(s))
    /\ LET d == DecodeC(EncodeC(s) \o <<Quote>> \o s) IN d.defined /\ d.text = s /\ d.read = Len(EncodeC(s)) + 1
    /\ LET d == DecodeUrl(EncodeUrl(s)) IN d.defined /\ d.text = s
    /\ LET d == Decode64(Encode64(s)) IN d.defined /\ d.text = s
    /\ Len(Encode64(s)) = 4 * ((Len(s) + 2) \div 3)
Emit == PrintT("@E " \o ToJson([s |-> s, p |-> p]))
ASSUME \A b \in Bytes1 : DecodeC(EncodeC(<<b>>)).text = <<b>> /\ DecodeUrl(EncodeUrl(<<b>>)).text = <<b>> /\ Decode64(Encode64(<<b, 255 - b>>)).text = <<b, 255 - b>>
ASSUME \A b \in Bytes1 : \A k \in DOMAIN EncodeC(<<b>>) : ~IsControl(EncodeC(<<b>>)[k])
=============================================================================
