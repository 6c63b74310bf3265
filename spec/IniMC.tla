------------------------------- MODULE IniMC -------------------------------
(* Texts written character by character, and what is read of them.  Checked:
   entries have distinct names, saving and reading back loses nothing, comments,
   blanks at the ends of lines and a missing end of the last line change
   nothing, and a later line wins over an earlier. *)
EXTENDS IniFile, TLC
CONSTANTS N
VARIABLES text, d

Alphabet == {97, 66, Eq, Open, Close, Semi, Quote, Tick, 32, LF}
Init == text = <<>> /\ d = <<>>
Next == Len(text) < N /\ \E c \in Alphabet : text' = Append(text, c) /\ d' = Read(text')
Spec == Init /\ [][Next]_<<text, d>>

\* the texts with a closed bracket for each section
Closed(t) == \A n \in DOMAIN Lines(t) : LET w == Trim(Lines(t)[n]) IN (w # <<>> /\ w[1] = Open) => Holds(w, {Close})
Distinct == \A a, b \in DOMAIN d : d[a].k = d[b].k => a = b
Same(x, y) == AsSet(x) = AsSet(y)
SavedBack == (Closed(text) /\ CanSave(d)) => AsSet(Read(SaveText(d))) = Saved(d) /\ Saved(d) = AsSet(d)
Ended(t) == t = <<>> \/ t[Len(t)] = LF
LastLine == (/\ ~Ended(text) /\ Closed(text) /\ (\A n \in DOMAIN d : d[n].v \notin {<<<<Quote>>>>, <<<<Tick>>>>})) => Read(text \o <<LF>>) = d
Comments == Ended(text) => Read(text \o <<32, Semi, 97, Eq, 97>>) = d
Blanks == (Closed(text) /\ Ended(text) /\ text # <<>>) => Read(SubSeq(text, 1, Len(text) - 1) \o <<32, 13, LF>>) = d
Later == LET l == <<97, Eq, 49, LF>>  s == Read(text \o <<LF, Open, 122, Close, LF>> \o l \o <<97, 32, Eq, 32, 50>>) IN
         Get(s, <<122, Colon, 97>>) = <<<<50>>>>
Lowered == \A n \in DOMAIN d : Lower(d[n].k) = d[n].k
Cropped == \A n \in DOMAIN d : d[n].v = <<>> \/ Crop(d[n].v[1]) = d[n].v[1]
=============================================================================
