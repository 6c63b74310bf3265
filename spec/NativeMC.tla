------------------------------ MODULE NativeMC ------------------------------
(* Native files of all small shapes, and one reader used again and again. *)
EXTENDS NativeFile, TLC, Json
CONSTANTS Depth
VARIABLES reader, did     \* the reader, and what was done to it so far

\* bands, lines, columns, bytes in a line, HRV lines and columns, trailer before the lines, bytes missing at the end, error in packet k
Bands == {<<>>, <<3>>, <<0, 8>>, <<11>>, <<8, 11>>}
RECURSIVE BandText(_, _)
BandText(bs, c) == IF c > HRV THEN <<>> ELSE <<IF \E k \in DOMAIN bs : bs[k] = c THEN 88 ELSE 45>> \o BandText(bs, c + 1)
DataAt(p) == MphLen + PktLen + HeaderLen + (IF p.first THEN PktLen + TrailerLen ELSE 0)
NPackets(p) == p.nl * Len(PerLine({p.bands[k] : k \in DOMAIN p.bands}, 0))
Stride(p) == PktLen + LineHdr + p.bytes
EndOfData(p) == DataAt(p) + NPackets(p) * Stride(p)
TrailerAt(p) == IF p.first THEN MphLen + PktLen + HeaderLen ELSE EndOfData(p)
Whole(p) == IF p.first THEN EndOfData(p) ELSE EndOfData(p) + PktLen + TrailerLen
Written(p) ==
  [n |-> Whole(p) - p.missing, a |-> 7, b |-> 13, seed |-> 5, lead |-> <<>>, skip |-> 0,
   patch |-> At2(9, DataAt(p)) \o At2(10, TrailerAt(p))
     \o <<At1(39, BandText(p.bands, 0)), At1(40, DecimalText(1)), At1(41, DecimalText(p.nl)), At1(42, DecimalText(p.nc)), At1(43, DecimalText(1)),
          At1(44, DecimalText(p.nl)), At1(45, DecimalText(p.nc)), At1(46, DecimalText(p.hl)), At1(47, DecimalText(p.hc)),
          PacketPatch(MphLen, HeaderLen), PacketPatch(TrailerAt(p), TrailerLen)>>
     \o [k \in 1..NPackets(p) |-> PacketPatch(DataAt(p) + (k - 1) * Stride(p), LineHdr + p.bytes)]]

Shapes == [bands : Bands, nl : {0, 1, 2}, nc : {0, 4, 5}, bytes : {0, 4, 5, 7}, hl : {3, 5}, hc : {4, 7}, first : BOOLEAN, missing : {0, 1, 380400}]
Sensible(p) == /\ p.missing > 0 => (p.nc = 4 /\ p.bytes = 5)
               /\ p.first => p.nc = 4
               /\ ~(\E k \in DOMAIN p.bands : p.bands[k] = HRV) => p.hl = 3 /\ p.hc = 4
               /\ (\E k \in DOMAIN p.bands : p.bands[k] = HRV) => p.nl > 0 /\ p.nc = 4
               /\ p.bands = <<>> => p.bytes = 5
SomeShapes == {p \in Shapes : Sensible(p)}

\* for the sessions: a few files
Session == {[bands |-> <<0, 8>>, nl |-> 2, nc |-> 4, bytes |-> 5, hl |-> 3, hc |-> 4, first |-> FALSE, missing |-> 0],
            [bands |-> <<8, 11>>, nl |-> 1, nc |-> 4, bytes |-> 10, hl |-> 3, hc |-> 7, first |-> TRUE, missing |-> 0],
            [bands |-> <<8>>, nl |-> 2, nc |-> 4, bytes |-> 5, hl |-> 3, hc |-> 4, first |-> TRUE, missing |-> 1]}

Init == \/ reader = [phase |-> "shape"] /\ did = <<>>
        \/ reader = [phase |-> "closed"] /\ did = <<>>
Shape == /\ reader.phase = "shape" /\ did = <<>>
         /\ \E p \in SomeShapes : did' = <<p>>
         /\ UNCHANGED reader
Do(x, r) == did' = Append(did, x) /\ reader' = r
Open == /\ reader.phase = "closed" /\ \E p \in Session : Do(<<"open", p>>, [phase |-> "open", p |-> p])
OpenNothing == reader.phase = "closed" /\ Do(<<"missing">>, reader)
Read == /\ reader.phase = "open"
        /\ Do(<<"read">>, IF Content(Written(reader.p)).ok THEN [reader EXCEPT !.phase = "read"] ELSE [reader EXCEPT !.phase = "lost"])
Close == reader.phase # "shape" /\ Do(<<"close">>, [phase |-> "closed"])
Next == Shape \/ (reader.phase # "shape" /\ Len(did) < Depth /\ (Open \/ OpenNothing \/ Read \/ Close))

\* a file is read exactly if nothing of it is missing
Decided == (reader.phase = "shape" /\ did # <<>>) =>
  LET p == did[1] m == Content(Written(p)) IN
  /\ m.ok <=> (p.missing = 0)
  /\ m.ok => /\ Len(m.packets) = NPackets(p)
             /\ \A c \in m.sel : c < HRV => Len(LinesOf(m, c)) = p.nl
             /\ \A c \in m.sel : LET im == Image(Written(p), m, c) IN
                   Len(im) = m.nl[c] /\ \A y \in DOMAIN im : \A x \in DOMAIN im[y] : im[y][x] \in 0..1023
\* reading is only refused for files that are incomplete
Sound == reader.phase = "read" => reader.p.missing = 0
Fresh == reader.phase = "lost" => reader.p.missing > 0
Emit == /\ (reader.phase = "shape" /\ did # <<>>) => PrintT("@E " \o ToJson([shape |-> did[1], d |-> Written(did[1])]))
        /\ (reader.phase # "shape" /\ Len(did) = Depth) =>
             PrintT("@E " \o ToJson([ops |-> [k \in DOMAIN did |-> IF did[k][1] = "open" THEN [op |-> "nopen", d |-> Written(did[k][2])]
                       ELSE [op |-> CASE did[k][1] = "missing" -> "nmissing" [] did[k][1] = "read" -> "nread" [] OTHER -> "nclose"]]]))
=============================================================================
