---------------------------- MODULE SegAccessMC ----------------------------
(* Any history of line reads over any set of present segments.  The model has
   the machinery (a cache of decoded segments) and what it must be invisible
   through: the answer to a read is a function of the files alone.            *)
EXTENDS SegAccess, TLC, Json
CONSTANTS NSeg, MaxReads, Present
VARIABLES present, cache, hist, contents, answer

\* contents: what is decoded in each cache slot (its segment number, faithfully)
vars == <<present, cache, hist, contents, answer>>
Init == /\ present \in Present
        /\ cache = <<>> /\ hist = <<>> /\ contents = <<>> /\ answer = <<0, 0>>
\* a read of the first (0) or last (1) line of segment s
Read(s, w) ==
    /\ Len(hist) < MaxReads
    /\ hist' = Append(hist, <<s, w>>)
    /\ IF s \notin present THEN answer' = <<0, w>> /\ UNCHANGED <<cache, contents>>
       ELSE /\ cache' = Use(cache, s)
            /\ contents' = [k \in 1..Len(cache') |-> cache'[k]]
            /\ answer' = <<contents'[1], w>>
    /\ UNCHANGED present
Next == \E s \in 1..NSeg, w \in 0..1 : Read(s, w)

Bounded == Len(cache) <= 2 /\ Cardinality({cache[k] : k \in 1..Len(cache)}) = Len(cache)
OnlyPresent == \A k \in 1..Len(cache) : cache[k] \in present
Transparent == hist # <<>> => answer = LET h == hist[Len(hist)] IN <<IF h[1] \in present THEN h[1] ELSE 0, h[2]>>
Emit == Len(hist) = MaxReads => PrintT("@E " \o ToJson([present |-> present, hist |-> hist]))
=============================================================================
