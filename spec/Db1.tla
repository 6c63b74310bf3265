-------------------------------- MODULE Db1 --------------------------------
(* A directory of the DB1 format: AoI and INFO.DBI describe the area and the
   passage, NAME.RAW holds the counts of a channel and NAME.Calibration its
   calibration. The reader has at most one directory open, and one channel of
   it set: the state is a record with the directories there are, the number of
   the open one (0: none) and the name of the channel set ("": none). *)
EXTENDS IniFile

Find1(fs, n) == CHOOSE k \in DOMAIN fs : fs[k].n = n
HasFile(fs, n) == \E k \in DOMAIN fs : fs[k].n = n
DirNo(s, n) == CHOOSE k \in DOMAIN s.dirs : s.dirs[k].d = n
IsDir(s, n) == \E k \in DOMAIN s.dirs : s.dirs[k].d = n
NewDir(r) == [d |-> r.d, raws |-> r.raws,
              inis |-> [k \in DOMAIN r.files |-> [n |-> r.files[k].n, d |-> Read(r.files[k].text)]]]
Cur(s) == s.dirs[s.open]
IniOf(s, n) == IF s.open = 0 \/ ~HasFile(Cur(s).inis, n) THEN <<>> ELSE Cur(s).inis[Find1(Cur(s).inis, n)].d
HasRaw(s, ch) == s.open # 0 /\ HasFile(Cur(s).raws, ch)
RawOf(s, ch) == Cur(s).raws[Find1(Cur(s).raws, ch)]
StrAt(d, k, other) == IF Has(d, k) /\ Get(d, k) # <<>> THEN Get(d, k)[1] ELSE other
IntAt(d, k, other) == IF Has(d, k) /\ Get(d, k) # <<>> THEN IntOf(Get(d, k)[1]) ELSE other
MilliAt(d, k, other) == IF Has(d, k) /\ Get(d, k) # <<>> THEN MilliOf(Get(d, k)[1]) ELSE other
BoolAt(d, k, other) == IF Has(d, k) /\ Get(d, k) # <<>> THEN BoolOf(Get(d, k)[1], other) ELSE other

\* names, as codes: the records carry them
Digit(n) == 48 + n
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digit(n)>> ELSE Dec(n \div 10) \o <<Digit(n % 10)>>
Channel(n) == <<99, 104, 97, 110, 110, 101, 108>> \o Dec(n) \o <<Colon>>
NameKey == <<110, 97, 109, 101>>
ChannelNo(info, name) ==
  LET hits == {n \in 1..12 : LET k == Channel(n) \o NameKey IN Has(info, k) /\ Get(info, k) = <<name>>} IN
  IF hits = {} THEN 0 ELSE CHOOSE n \in hits : \A m \in hits : n <= m
BitsKey == <<105, 109, 97, 103, 101, 58, 98, 105, 116, 115, 112, 101, 114, 112, 105, 120, 101, 108>>
Bits(s) == IntAt(IniOf(s, "INFO.DBI"), BitsKey, 10)
CanSet(s, ch, codes) ==
  /\ HasRaw(s, ch)
  /\ Len(RawOf(s, ch).v) > 0 \/ RawOf(s, ch).odd = 1
  /\ ChannelNo(IniOf(s, "INFO.DBI"), codes) # 0
  /\ Bits(s) \in 0..16
Good(s) == s.ch # ""
\* the code of the variable: T for temperatures, and V or N for radiances
VarCode(info, n) ==
  LET v == StrAt(info, Channel(n) \o <<118, 97, 114, 105, 97, 98, 108, 101>>, <<85>>)
      nm == StrAt(info, Channel(n) \o NameKey, <<>>)
      vis == nm \in {<<86, 73, 83, 48, 48, 54>>, <<86, 73, 83, 48, 48, 56>>, <<73, 82, 95, 48, 49, 54>>} IN
  IF v # <<>> /\ v[1] = 84 THEN <<84>> ELSE IF v # <<>> /\ v[1] = 82 THEN (IF vis THEN <<86>> ELSE <<78>>) ELSE <<85>>
Calibrated(s, info, cal, n, count) ==
  LET k == Lower(StrAt(info, Channel(n) \o <<118, 97, 114, 105, 97, 98, 108, 101>>, <<85, 110, 100, 101, 102, 105, 110, 101, 100>>))
           \o <<Colon>> \o Lower(VarCode(info, n)) \o <<40>> \o Dec(count) \o <<41>> IN
  MilliAt(cal, k, 0)

OpenDir(s, n) == [s EXCEPT !.open = IF IsDir(s, n) THEN DirNo(s, n) ELSE 0, !.ch = ""]
CloseDir(s) == [s EXCEPT !.open = 0, !.ch = ""]
SetCh(s, ch, codes) == [s EXCEPT !.ch = IF CanSet(s, ch, codes) THEN ch ELSE ""]
=============================================================================
