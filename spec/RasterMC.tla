------------------------------ MODULE RasterMC ------------------------------
(* Any history of opening, reading, flushing and closing datasets that share
   nothing but their files.  The machinery (blocks kept by each open dataset,
   two decoded segments kept by each) must be invisible: a read answers with
   what the files of its own product hold.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Products, Rows, MaxOps
VARIABLES open, blocks, segs, hist, answer, asked
vars == <<open, blocks, segs, hist, answer, asked>>
\* two rows to a segment
SegOf(row) == row \div 2
None == "none"
Init == /\ open = [s \in Slots |-> None] /\ blocks = [s \in Slots |-> {}] /\ segs = [s \in Slots |-> <<>>]
        /\ hist = <<>> /\ answer = <<>> /\ asked = <<>>
Log(e) == hist' = Append(hist, e)
Open(s, p) == /\ open[s] = None /\ open' = [open EXCEPT ![s] = p] /\ blocks' = [blocks EXCEPT ![s] = {}]
              /\ segs' = [segs EXCEPT ![s] = <<>>] /\ Log(<<"open", s, p>>) /\ UNCHANGED <<answer, asked>>
Close(s) == /\ open[s] # None /\ open' = [open EXCEPT ![s] = None] /\ blocks' = [blocks EXCEPT ![s] = {}]
            /\ segs' = [segs EXCEPT ![s] = <<>>] /\ Log(<<"close", s>>) /\ UNCHANGED <<answer, asked>>
Flush(s) == /\ open[s] # None /\ blocks[s] # {} /\ blocks' = [blocks EXCEPT ![s] = {}] /\ Log(<<"flush", s>>)
            /\ UNCHANGED <<open, segs, answer, asked>>
Read(s, r) ==
    /\ open[s] # None
    /\ Log(<<"read", s, r>>)
    /\ asked' = <<open[s], r>>
    /\ IF \E b \in blocks[s] : b[1] = r
       THEN /\ answer' = (CHOOSE b \in blocks[s] : b[1] = r)[2] /\ UNCHANGED <<blocks, segs>>
       ELSE LET have == {k \in 1..Len(segs[s]) : segs[s][k][1] = SegOf(r)}
                item == IF have # {} THEN segs[s][CHOOSE k \in have : TRUE] ELSE <<SegOf(r), open[s]>>
                rest == SelectSeq(segs[s], LAMBDA x : x[1] # SegOf(r))
            IN /\ segs' = [segs EXCEPT ![s] = <<item>> \o SubSeq(rest, 1, IF Len(rest) > 1 THEN 1 ELSE Len(rest))]
               /\ answer' = <<item[2], r>>
               /\ blocks' = [blocks EXCEPT ![s] = @ \cup {<<r, <<item[2], r>>>>}]
    /\ UNCHANGED open
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Slots, p \in Products : Open(s, p)
           \/ \E s \in Slots : Close(s) \/ Flush(s)
           \/ \E s \in Slots, r \in Rows : Read(s, r)
Faithful == asked # <<>> => answer = asked
CacheBound == \A s \in Slots : Len(segs[s]) <= 2
Reads == Cardinality({k \in 1..Len(hist) : hist[k][1] = "read"})
Emit == (Len(hist) = MaxOps /\ Reads >= 2 /\ hist[MaxOps][1] = "read") => PrintT("@E " \o ToJson(hist))
=============================================================================
