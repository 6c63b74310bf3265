------------------------------- MODULE Db1MC -------------------------------
(* Three directories with two channels each: in the first all is there, in the
   second one channel has no counts and the other no calibration, the third
   gives an impossible number of bits. They are opened, closed and their
   channels set in all orders; the behaviours are also replayed on the code. *)
EXTENDS Db1, TLC, Json
CONSTANTS MaxOps
VARIABLES s, hist

Vis == <<86, 73, 83, 48, 48, 54>>
Ir == <<73, 82, 95, 48, 51, 57>>
Codes(ch) == IF ch = "VIS006" THEN Vis ELSE IF ch = "IR_039" THEN Ir ELSE <<78>>
Entry(k, v) == [k |-> k, v |-> <<v>>]
VarKey == <<118, 97, 114, 105, 97, 98, 108, 101>>
R == <<82>>  V == <<86>>  Nn == <<78>>
InfoOf(b, a, z) == << [k |-> <<>>, v |-> <<>>], Entry(BitsKey, Dec(b)), Entry(Channel(1) \o NameKey, a), Entry(Channel(1) \o VarKey, R), Entry(Channel(2) \o NameKey, z), Entry(Channel(2) \o VarKey, R) >>
CalOf(code, n) == << Entry(<<114, Colon>> \o Lower(code) \o <<40, 48, 41>>, Dec(n)), Entry(<<114, Colon>> \o Lower(code) \o <<40, 49, 41>>, Dec(n + 1)) >>
Raw(n, v) == [n |-> n, v |-> v, odd |-> 0]
Ini(n, d) == [n |-> n, d |-> d]
Dirs == <<
  [d |-> "d1", raws |-> <<Raw("VIS006", <<0, 1>>), Raw("IR_039", <<1, 1, 0>>)>>,
   inis |-> <<Ini("INFO.DBI", InfoOf(1, Vis, Ir)), Ini("VIS006.Calibration", CalOf(V, 10)), Ini("IR_039.Calibration", CalOf(Nn, 20))>>],
  [d |-> "d2", raws |-> <<Raw("IR_039", <<1>>)>>,
   inis |-> <<Ini("INFO.DBI", InfoOf(2, Ir, Vis)), Ini("VIS006.Calibration", CalOf(V, 30))>>],
  [d |-> "d3", raws |-> <<Raw("VIS006", <<5>>), Raw("IR_039", <<>>)>>,
   inis |-> <<Ini("INFO.DBI", InfoOf(40, Vis, Ir)), Ini("VIS006.Calibration", CalOf(V, 50))>>]>>

Init == s = [dirs |-> Dirs, open |-> 0, ch |-> ""] /\ hist = <<>>
Do(o, d, c, t) == s' = t /\ hist' = Append(hist, [op |-> o, d |-> d, ch |-> c])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in {"d1", "d2", "d3", "none"} : Do("open", d, "", OpenDir(s, d))
           \/ \E c \in {"VIS006", "IR_039", "NONE"} : Do("setch", "", c, SetCh(s, c, Codes(c)))
           \/ Do("close", "", "", CloseDir(s))
Spec == Init /\ [][Next]_<<s, hist>>

\* a channel that is set has its counts in the open directory, and a number by which that directory describes it
Described == Good(s) => /\ s.open # 0 /\ HasRaw(s, s.ch) /\ RawOf(s, s.ch).v # <<>> /\ Bits(s) \in 0..16
                        /\ LET info == IniOf(s, "INFO.DBI") n == ChannelNo(info, Codes(s.ch)) IN n # 0 /\ Get(info, Channel(n) \o NameKey) = <<Codes(s.ch)>>
\* its calibration is its own, or none
Own == Good(s) => LET info == IniOf(s, "INFO.DBI") n == ChannelNo(info, Codes(s.ch)) v == Calibrated(s, info, IniOf(s, s.ch \o ".Calibration"), n, 1) IN
       v = (CASE s.open = 1 /\ s.ch = "VIS006" -> 11000 [] s.open = 1 /\ s.ch = "IR_039" -> 21000 [] OTHER -> 0)
\* what is set does not depend on what came before the last opening
Forgets == s.ch # "" => hist[Len(hist)].op = "setch" /\ hist[Len(hist)].ch = s.ch
Emit == Len(hist) = MaxOps => PrintT("@E " \o ToJson(hist))
=============================================================================
