------------------------------- MODULE OpenMC -------------------------------
(* Files of a product come and go; names are opened in between.  What opening
   answers depends on the files of that product alone, at that moment, and on
   what is asked for; the history of it is emitted for replay.              *)
EXTENDS Raster, Json
CONSTANTS MaxOps
VARIABLES files, hist, last
vars == <<files, hist, last>>

Text(t) == CASE t = "IR_039" -> IR039 [] t = "IR_108" -> IR108 [] t = "IR_134" -> IR134
             [] t = "VIS006" -> <<86, 73, 83, 48, 48, 54>>
Key(c) == [dir |-> <<112>>, res |-> <<72>>, p1 |-> <<77, 83, 71, 49>>, p2 |-> Text(c), time |-> <<49>>]
Chans == {"IR_039", "IR_108", "IR_134", "VIS006"}
Num(c) == CASE c = "IR_039" -> 4 [] c = "IR_108" -> 9 [] c = "IR_134" -> 11 [] c = "VIS006" -> 1
ProdOf(c) == [hrv |-> FALSE, cols |-> 3, segl |-> 464, bpp |-> 10, mirrored |-> FALSE, present |-> {1}, cut |-> {}, chan |-> Num(c),
              sc |-> 321, lon |-> 0, big |-> 0, cov |-> <<>>]
Kinds == {"pro", "epi"} \cup Chans
World == [pros |-> IF "pro" \in files THEN ProKey(Key("VIS006")) :> [day |-> 0, ms |-> 0, step |-> 3, stephrv |-> 1, lstep |-> 3, lstephrv |-> 1, slope |-> [c \in 1..12 |-> 1], ofs |-> [c \in 1..12 |-> 0]] ELSE <<>>,
          epis |-> IF "epi" \in files THEN ProKey(Key("VIS006")) :> <<1, 2, 3, 4, 5, 6, 7, 8>> ELSE <<>>,
          prods |-> [k \in {ProdKey(Key(c)) : c \in files \cap Chans} |-> ProdOf(CHOOSE c \in Chans : ProdKey(Key(c)) = k)],
          ds |-> <<>>, files |-> <<>>, grs |-> <<>>]
Name(c, suf) == <<112, 47, 72, 58, 77, 83, 71, 49, 58>> \o Text(c) \o suf \o <<58, 49>>
Wants == {"", "jday", "reflectance", "nonsense"}
Sufs == {<<>>, <<114>>, <<97>>}

\* files other than those that matter play no part; start anywhere
Init == files \in SUBSET Kinds /\ hist = <<<<"have", files>>>> /\ last = <<>>
Add(k) == k \notin files /\ files' = files \cup {k} /\ hist' = Append(hist, <<"add", k>>) /\ UNCHANGED last
Del(k) == k \in files /\ files' = files \ {k} /\ hist' = Append(hist, <<"del", k>>) /\ UNCHANGED last
Open(c, suf, w) == /\ last' = <<c, suf, w, OpenXrit(World, Name(c, suf), w).kind>>
                   /\ hist' = Append(hist, <<"open", c, suf, w>>) /\ UNCHANGED files
Changes == Len(SelectSeq(hist, LAMBDA h : h[1] \in {"add", "del"}))
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E k \in Kinds : Changes = 0 /\ last # <<>> /\ (Add(k) \/ Del(k))
           \/ \E c \in {"IR_039", "VIS006"}, suf \in Sufs, w \in Wants : (suf # <<>> => w \in {"", "jday"}) /\ Open(c, suf, w)

Common == {"pro", "epi"}
Need(c, suf, w) == Common \cup {c} \cup (IF c = "IR_039" /\ suf = <<114>> THEN {"IR_108", "IR_134"} ELSE {})
Supported(c, suf, w) == suf # <<>> \/ w \in {"", "jday"} \/ (w = "reflectance" /\ c = "VIS006")
\* an open just made answered by what it needs
OpenNeeds == (last # <<>> /\ hist[Len(hist)][1] = "open") =>
    ((last[4] \notin {"fails", "foreign"}) <=> (Need(last[1], last[2], last[3]) \subseteq files /\ Supported(last[1], last[2], last[3])))
Emit == /\ (Len(hist) = 3 /\ hist[2][1] = "open" /\ hist[3][1] = "open") => PrintT("@E " \o ToJson(hist))
        /\ (Len(hist) = 4 /\ hist[2][1] = "open" /\ hist[3][1] # "open" /\ hist[4] = hist[2]) => PrintT("@E " \o ToJson(hist))
=============================================================================
