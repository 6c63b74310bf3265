------------------------------- MODULE Texts -------------------------------
(* The helpers on texts (msat/utils/string): stripping, splitting, joining,
   paths, and the three encodings.  Texts are sequences of bytes.            *)
EXTENDS Integers, Sequences, FiniteSets

Bytes1 == 0..255
Slash == 47  Dot == 46  Quote == 34  Back == 92  Percent == 37  Pad == 61
IsSpace(b) == b \in {9, 10, 11, 12, 13, 32}
IsControl(b) == b \in 0..31 \/ b = 127
Digit(b) == b \in 48..57
Upper(b) == b \in 65..90
Lower(b) == b \in 97..122

\* --- stripping, case, parts
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
ToUpper(s) == [k \in DOMAIN s |-> IF Lower(s[k]) THEN s[k] - 32 ELSE s[k]]
ToLower(s) == [k \in DOMAIN s |-> IF Upper(s[k]) THEN s[k] + 32 ELSE s[k]]
IsAt(s, p, k) == k >= 1 /\ k + Len(p) - 1 <= Len(s) /\ \A j \in DOMAIN p : s[k + j - 1] = p[j]
StartsWith(s, p) == IsAt(s, p, 1)
EndsWith(s, p) == IsAt(s, p, Len(s) - Len(p) + 1)

\* --- splitting and joining
RECURSIVE Join(_, _)
Join(sep, ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(sep, Tail(ts))
RECURSIVE SplitFrom(_, _, _, _)
\* b: where the token being read starts; k: where it is looked for the separator
SplitFrom(s, sep, b, k) ==
    IF k + Len(sep) - 1 > Len(s) THEN <<SubSeq(s, b, Len(s))>>
    ELSE IF IsAt(s, sep, k) THEN <<SubSeq(s, b, k - 1)>> \o SplitFrom(s, sep, k + Len(sep), k + Len(sep))
    ELSE SplitFrom(s, sep, b, k + 1)
\* nothing has no tokens; with no separator, tokens are the single bytes
Split(s, sep) == IF s = <<>> THEN <<>> ELSE IF sep = <<>> THEN [k \in DOMAIN s |-> <<s[k]>>] ELSE SplitFrom(s, sep, 1, 1)
SplitFull(s, sep) == SelectSeq(Split(s, sep), LAMBDA t : t # <<>>)
\* what there is after the first token and the separators that follow it
Rest(s, sep) == LET ts == Split(s, sep) IN IF Len(ts) < 2 THEN <<>> ELSE SubSeq(s, Len(ts[1]) + Len(sep) + 1, Len(s))

\* --- paths
RECURSIVE LastOf(_, _, _)
LastOf(s, b, k) == IF k = 0 THEN 0 ELSE IF s[k] = b THEN k ELSE LastOf(s, b, k - 1)
RECURSIVE NoSlashes(_)
NoSlashes(s) == IF s # <<>> /\ s[Len(s)] = Slash THEN NoSlashes(SubSeq(s, 1, Len(s) - 1)) ELSE s
BaseName(s) == SubSeq(s, LastOf(s, Slash, Len(s)) + 1, Len(s))
DirName(s) ==
    IF s = <<>> THEN <<Dot>>
    ELSE LET t == NoSlashes(s)
             k == LastOf(t, Slash, Len(t))
             d == NoSlashes(SubSeq(t, 1, k))
         IN IF t = <<>> THEN <<Slash>> ELSE IF k = 0 THEN <<Dot>> ELSE IF d = <<>> THEN <<Slash>> ELSE d
Append2(a, b) ==
    IF b = <<>> THEN a ELSE IF a = <<>> THEN b
    ELSE IF a[Len(a)] = Slash /\ b[1] = Slash THEN a \o Tail(b)
    ELSE IF a[Len(a)] = Slash \/ b[1] = Slash THEN a \o b
    ELSE a \o <<Slash>> \o b
RECURSIVE Walk(_, _, _)
\* where the names lead, from the names so far
Walk(abs, st, ts) ==
    IF ts = <<>> THEN st
    ELSE LET t == ts[1] IN
         IF t \in {<<>>, <<Dot>>} THEN Walk(abs, st, Tail(ts))
         ELSE IF t # <<Dot, Dot>> THEN Walk(abs, Append(st, t), Tail(ts))
         ELSE IF st = <<>> THEN Walk(abs, IF abs THEN st ELSE <<t>>, Tail(ts))
         ELSE IF st[Len(st)] = t THEN Walk(abs, Append(st, t), Tail(ts))
         ELSE Walk(abs, SubSeq(st, 1, Len(st) - 1), Tail(ts))
Normal(s) ==
    LET abs == s # <<>> /\ s[1] = Slash
        st == Walk(abs, <<>>, Split(s, <<Slash>>))
    IN IF abs THEN <<Slash>> \o Join(<<Slash>>, st) ELSE IF st = <<>> THEN <<Dot>> ELSE Join(<<Slash>>, st)

\* --- texts between double quotes
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexVal(b) == IF Digit(b) THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
EncC1(b) == IF b = 10 THEN <<Back, 110>> ELSE IF b = 9 THEN <<Back, 116>>
            ELSE IF IsControl(b) THEN <<Back, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
            ELSE IF b \in {Quote, Back} THEN <<Back, b>> ELSE <<b>>
RECURSIVE Flat2(_)
Flat2(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat2(Tail(ss))
EncodeC(s) == Flat2([k \in DOMAIN s |-> EncC1(s[k])])
\* the text read from k on, and how many bytes were read; texts with \x and no digit after it are not defined
RECURSIVE DecC(_, _, _)
DecC(s, k, got) ==
    IF k > Len(s) THEN [text |-> got, read |-> Len(s), defined |-> TRUE]
    ELSE IF s[k] = Quote THEN [text |-> got, read |-> k, defined |-> TRUE]
    ELSE IF s[k] # Back \/ k = Len(s) THEN DecC(s, k + 1, Append(got, s[k]))
    ELSE LET c == s[k + 1] IN
         IF c = 110 THEN DecC(s, k + 2, Append(got, 10))
         ELSE IF c = 116 THEN DecC(s, k + 2, Append(got, 9))
         ELSE IF c = 120 THEN
              LET h(j) == IF k + j <= Len(s) THEN HexVal(s[k + j]) ELSE -1 IN
              IF h(2) < 0 THEN [text |-> <<>>, read |-> 0, defined |-> FALSE]
              ELSE IF h(3) < 0 THEN DecC(s, k + 3, Append(got, h(2)))
              ELSE DecC(s, k + 4, Append(got, h(2) * 16 + h(3)))
         ELSE DecC(s, k + 2, Append(got, c))
DecodeC(s) == DecC(s, 1, <<>>)

\* --- texts in URLs
Plain(b) == Digit(b) \/ Upper(b) \/ Lower(b) \/ b \in {45, 95, 33, 42, 39, 40, 41}
EncodeUrl(s) == Flat2([k \in DOMAIN s |-> IF Plain(s[k]) THEN <<s[k]>> ELSE <<Percent, HexDigit(s[k] \div 16), HexDigit(s[k] % 16)>>])
RECURSIVE DecUrl(_, _, _)
DecUrl(s, k, got) ==
    IF k > Len(s) THEN [text |-> got, defined |-> TRUE]
    ELSE IF s[k] # Percent THEN DecUrl(s, k + 1, Append(got, s[k]))
    ELSE IF k + 2 > Len(s) THEN [text |-> got, defined |-> TRUE]     \* a partial one at the end is ignored
    ELSE LET a == HexVal(s[k + 1]) b == HexVal(s[k + 2]) IN
         IF a < 0 \/ b < 0 THEN [text |-> <<>>, defined |-> FALSE]
         ELSE DecUrl(s, k + 3, Append(got, a * 16 + b))
DecodeUrl(s) == DecUrl(s, 1, <<>>)

\* --- Base64 (RFC 4648)
Letter(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
Value(b) == IF Upper(b) THEN b - 65 ELSE IF Lower(b) THEN b - 71 ELSE IF Digit(b) THEN b + 4 ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE -1
RECURSIVE Encode64(_)
Encode64(s) ==
    LET n == Len(s)
        v == (IF n > 0 THEN s[1] * 65536 ELSE 0) + (IF n > 1 THEN s[2] * 256 ELSE 0) + (IF n > 2 THEN s[3] ELSE 0)
        l(k) == Letter((v \div k) % 64)
    IN IF n = 0 THEN <<>>
       ELSE IF n = 1 THEN <<l(262144), l(4096), Pad, Pad>>
       ELSE IF n = 2 THEN <<l(262144), l(4096), l(64), Pad>>
       ELSE <<l(262144), l(4096), l(64), l(1)>> \o Encode64(SubSeq(s, 4, n))
RECURSIVE Decode64(_)
Decode64(s) ==
    IF s = <<>> THEN [text |-> <<>>, defined |-> TRUE]
    ELSE IF Len(s) < 4 THEN [text |-> <<>>, defined |-> FALSE]
    ELSE LET p == IF s[4] # Pad THEN 0 ELSE IF s[3] # Pad THEN 1 ELSE 2
             ok == (\A k \in 1..4 - p : Value(s[k]) >= 0) /\ (p > 0 => Len(s) = 4)
             w(k) == IF k <= 4 - p THEN Value(s[k]) ELSE 0
             v == w(1) * 262144 + w(2) * 4096 + w(3) * 64 + w(4)
             here == SubSeq(<<v \div 65536, (v \div 256) % 256, v % 256>>, 1, 3 - p)
             r == Decode64(SubSeq(s, 5, Len(s)))
         IN IF ~ok \/ ~r.defined THEN [text |-> <<>>, defined |-> FALSE]
            ELSE [text |-> here \o r.text, defined |-> TRUE]
=============================================================================
