------------------------------ MODULE IniTrace ------------------------------
(* What the real code was seen to do with configuration files, and with the
   DB1 directories it reads through them. State: the dictionary in hand
   (none: no file), whether entries were removed from it, the directories
   written, what the DB1 reader has open and the channel it is set to. *)
EXTENDS Db1, TraceBase

None == <<-1>>
MyStarts(r) == {[d |-> <<>>, none |-> TRUE, gaps |-> FALSE, dirs |-> <<>>, open |-> 0, ch |-> ""]}
Keep(s, ok) == IF ok THEN {s} ELSE {}

\* ---- dictionaries
GetOk(s, r) ==
  LET k == Lower(r.key)
      has == ~s.none /\ Has(s.d, k)
      v == IF has THEN Get(s.d, k) ELSE <<>>
      t == IF v = <<>> THEN <<>> ELSE v[1] IN
  /\ r.out.find = (IF has THEN 1 ELSE 0) /\ r.out.same = 1
  /\ r.out.kind = (IF ~has THEN "default" ELSE IF v = <<>> THEN "null" ELSE "value")
  /\ r.out.s = t
  /\ IF v = <<>> THEN r.out.int = -7777 /\ r.out.real = -7777000 /\ r.out.bool = -7777
     ELSE /\ Decimal(t) => r.out.int = IntOf(t) /\ r.out.real = MilliOf(t)
          /\ r.out.bool = BoolOf(t, -7777)
DumpLine(e) == <<Open>> \o e.k \o (IF e.v = <<>> THEN <<Close, Eq, 85, 78, 68, 69, 70, LF>> ELSE <<Close, Eq, Open>> \o e.v[1] \o <<Close, LF>>)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
DumpOk(s, t) ==
  LET ls == [k \in DOMAIN s.d |-> DumpLine(s.d[k])] IN
  IF s.none THEN t = <<>>
  ELSE IF ~s.gaps THEN t = Cat(ls)
  ELSE LET seen == Lines(t) IN Len(seen) = Len(ls) /\ {seen[k] : k \in DOMAIN seen} = {ls[k] : k \in DOMAIN ls}
SecsOk(s, r) ==
  LET q == Sections(s.d) names == [k \in DOMAIN q |-> q[k].k] IN
  IF s.none THEN r.out.n = -1
  ELSE /\ r.out.n = Len(names) /\ r.out.after = 0
       /\ IF s.gaps THEN {r.out.names[k] : k \in DOMAIN names} = {names[k] : k \in DOMAIN names} ELSE r.out.names = names
SaveOk(s, t) == IF s.none THEN t = <<>> ELSE CanSave(s.d) => AsSet(Read(t)) = Saved(s.d)

\* ---- DB1 directories
AskOk(s, r) ==
  IF ~Good(s)
  THEN /\ r.out.ok = 0 /\ r.out.has = 0 /\ r.out.raw = <<>> /\ r.out.hascal = 0 /\ r.out.ncal = 0 /\ r.out.size = 0 /\ r.out.nvals = 0
       /\ r.out.aoi = <<-1, -1, 0, 0, 0, 0>> /\ \A k \in DOMAIN r.out.ints : r.out.ints[k] = 0
       /\ \A k \in DOMAIN r.out.names : r.out.names[k] = None
       /\ \A k \in DOMAIN r.out.ch : r.out.ch[k] = None
       /\ \A k \in DOMAIN r.out.coeff : r.out.coeff[k] = 0
       /\ r.out.bools = <<0, 0, 0>> /\ r.out.elev = 0 /\ r.out.chbits = 0 /\ r.out.chtable = 0
  ELSE LET aoi == IniOf(s, "AoI") info == IniOf(s, "INFO.DBI") cal == IniOf(s, s.ch \o ".Calibration")
           raw == RawOf(s, s.ch) size == (2 * Len(raw.v)) + raw.odd nv == size \div 2
           K == r.keys n == ChannelNo(info, K.ch) C == Channel(n)
           nc == 2 ^ Bits(s) IN
       /\ r.out.ok = 1 /\ r.out.has = 1 /\ r.out.hascal = 1
       /\ r.out.size = size /\ r.out.nvals = nv /\ r.out.raw = raw.v
       /\ r.out.aoi = <<IntAt(aoi, K.aoi[1], nv), IntAt(aoi, K.aoi[2], 1), IntAt(aoi, K.aoi[3], 0), IntAt(aoi, K.aoi[4], 0), IntAt(aoi, K.aoi[5], 0), IntAt(aoi, K.aoi[6], 0)>>
       /\ \A k \in DOMAIN K.names : r.out.names[k] = StrAt(IF k < 3 THEN aoi ELSE info, K.names[k].key, K.names[k].other)
       /\ r.out.ints = <<IntAt(info, K.ints[1], 0), IntAt(info, K.ints[2], 0), IntAt(info, K.ints[3], nv), IntAt(info, K.ints[4], 1), IntAt(info, K.ints[5], 10), IntAt(info, K.ints[6], 10), IntAt(info, K.ints[7], 10)>>
       /\ r.out.bools = <<BoolAt(info, K.bools[1], 0), BoolAt(info, K.bools[2], 1), BoolAt(info, K.bools[3], 0)>>
       /\ r.out.elev = MilliAt(info, K.elev, 90000)
       /\ r.out.ch = <<K.ch, StrAt(info, C \o K.sub[1], K.undef), VarCode(info, n), StrAt(info, C \o K.sub[2], K.undef)>>
       /\ r.out.chbits = IntAt(info, C \o K.sub[3], 10) /\ r.out.chtable = BoolAt(info, C \o K.sub[4], 0)
       /\ r.out.coeff = [k \in 1..5 |-> MilliAt(cal, K.coeff[k], 0)]
       /\ r.out.ncal = nc
       /\ \A c \in DOMAIN r.out.cal : r.out.cal[c][1] \in 0..(nc - 1) /\ r.out.cal[c][2] = Calibrated(s, info, cal, n, r.out.cal[c][1])
       \* what is not shown is zero
       /\ LET shown == {r.out.cal[c][1] : c \in DOMAIN r.out.cal} IN
          \A c \in (IF nc <= 256 THEN 0..(nc - 1) ELSE {K.some[q] : q \in DOMAIN K.some} \cap 0..(nc - 1)) : c \in shown \/ Calibrated(s, info, cal, n, c) = 0

MyStep(s, r) ==
  LET o == r.op IN
  CASE "exc" \in DOMAIN r.out -> {}
    [] o = "read" -> IF r.out.ok = 1 THEN {[s EXCEPT !.d = Read(r.text), !.none = FALSE, !.gaps = FALSE]} ELSE {}
    [] o = "absent" -> IF r.out.ok = 0 THEN {[s EXCEPT !.d = <<>>, !.none = TRUE, !.gaps = FALSE]} ELSE {}
    [] o = "get" -> Keep(s, GetOk(s, r))
    [] o = "set" -> IF s.none THEN {s} ELSE IF r.out.r = 0 THEN {[s EXCEPT !.d = Put(@, Lower(r.key), IF r.null = 1 THEN <<>> ELSE <<r.v>>)]} ELSE {}
    [] o = "unset" -> {[s EXCEPT !.d = Drop(@, Lower(r.key)), !.gaps = @ \/ Has(s.d, Lower(r.key))]}
    [] o = "dump" -> Keep(s, DumpOk(s, r.out.text))
    [] o = "sections" -> Keep(s, SecsOk(s, r))
    [] o = "save" -> Keep(s, SaveOk(s, r.out.text))
    [] o = "reload" -> IF SaveOk(s, r.out.text) THEN {[s EXCEPT !.d = Read(r.out.text), !.gaps = FALSE]} ELSE {}
    [] o = "dir" -> {[s EXCEPT !.dirs = IF IsDir(s, r.d) THEN [@ EXCEPT ![DirNo(s, r.d)] = NewDir(r)] ELSE Append(@, NewDir(r))]}
    [] o = "open" -> {OpenDir(s, r.d)}
    [] o = "close" -> {CloseDir(s)}
    [] o = "has" -> Keep(s, r.out.r = (IF HasRaw(s, r.ch) THEN 1 ELSE 0))
    [] o = "setch" -> LET ok == CanSet(s, r.ch, r.keys.ch) IN
                      IF r.out.r = (IF ok THEN 1 ELSE 0) THEN {SetCh(s, r.ch, r.keys.ch)} ELSE {}
    [] o = "ask" -> Keep(s, AskOk(s, r))
    [] o = "value" ->
         Keep(s, IF ~Good(s) \/ r.count < 0 \/ r.count >= 2 ^ Bits(s) THEN r.out.v = 0
                 ELSE LET info == IniOf(s, "INFO.DBI") IN
                      r.out.v = Calibrated(s, info, IniOf(s, s.ch \o ".Calibration"), ChannelNo(info, r.keys.ch), r.count))
    [] OTHER -> {}
=============================================================================
