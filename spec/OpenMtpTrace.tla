---------------------------- MODULE OpenMtpTrace ----------------------------
(* What the real code was seen to answer of OpenMTP files.  State: the files,
   and the one the object in hand has read, if it has read one. *)
EXTENDS OpenMtpFile, TraceBase

Nothing == [len |-> -1, seed |-> 0, runs |-> <<>>]
MyStarts(r) == {[files |-> <<Nothing, Nothing, Nothing, Nothing>>, cur |-> Nothing, st |-> "new"]}
Keep(s, ok) == IF ok THEN {s} ELSE {}
L(v) == IF v = <<-1>> THEN R("NaN") ELSE RBits(v[1], v[2], v[3], v[4])
Near(out, v) == RClose(out, v, R("2e-6"), R("1e-6"))
B(x) == IF x THEN 1 ELSE 0
CText(b) == IF \E k \in DOMAIN b : b[k] = 0 THEN SubSeq(b, 1, (CHOOSE k \in DOMAIN b : b[k] = 0 /\ \A j \in 1..(k - 1) : b[j] # 0) - 1) ELSE b

\* real numbers come as they are in the file, those that are no numbers come as such
IsReal(q, n) == n = 8 \/ q \in {95, 7479, 7483, 7487, 7491, 7495, 7499, 7623} \/ (q >= 7827 /\ q < 96027) \/ (q >= 96035 /\ q # 144515)
NoNumber(b) == IF Len(b) = 8 THEN b[1] % 128 = 127 /\ b[2] >= 240 ELSE b[1] % 128 = 127 /\ b[2] >= 128
Same(out, f, q, n) == \E b \in {Bytes(f, q, n)} : out = b \/ (IsReal(q, n) /\ NoNumber(b) /\ NoNumber(out))

HeaderOk(f, r) ==
  LET o == r.out IN
  /\ \A k \in DOMAIN Scalars : Same(o.scalars[k], f, Scalars[k][1], Scalars[k][2])
  /\ \A k \in DOMAIN Arrays : \A j \in DOMAIN r.some[k] : Same(o.arrays[k][j], f, Arrays[k][1] + (r.some[k][j] * Arrays[k][2]), Arrays[k][2])
  /\ \A k \in 1..39 : o.flags[k] = B(\E b \in {Bytes(f, Flags[k][1], 4)} : b = <<0, 0, 0, Flags[k][2]>>)
  /\ \A k \in 1..11 : o.flags[39 + k] = B(H(f, 7558 + k) > 0) /\ o.status[k] = o.flags[39 + k]
  /\ o.more = <<B(Rectified(f)), B(Vis(f)), B(Ir(f)), B(Wv(f))>>
  /\ o.cal = <<Coefficient(f), Space(f), CalDay(f), CalSlot(f)>>
  /\ o.texts = <<CText(Bytes(f, 0, 8)), CText(Bytes(f, 32, 2)), CText(Bytes(f, 72, 15)), CText(Bytes(f, 115, 8))>>
  /\ \A k \in DOMAIN r.ask : LET q == r.ask[k] IN o.lines[k] = IF q < 0 \/ q >= 2500 THEN <<0, 0>> ELSE <<B(H(f, 155 + q) > 0), B(H(f, 2655 + q) > 0)>>
  /\ \A k \in DOMAIN r.table : o.tables[k] = <<H(f, 155 + r.table[k]), H(f, 2655 + r.table[k])>>

\* ---- the header as text
Printed ==
  {<<"Year", 8, 4>>, <<"Jday", 12, 4>>, <<"Slot", 16, 4>>, <<"Dtype", 20, 4>>, <<"Date", 24, 4>>, <<"Time", 28, 4>>, <<"Proc", 36, 4>>, <<"Rec2siz", 60, 4>>,
   <<"Lrecsize", 64, 4>>, <<"Loffset", 68, 4>>, <<"Dmmod", 87, 4>>, <<"Rsmet", 91, 4>>, <<"Origin", 111, 4>>, <<"Line1", 123, 4>>, <<"Pixel1", 127, 4>>,
   <<"Nlines", 131, 4>>, <<"Npixels", 135, 4>>, <<"Imgqua", 5155, 4>>, <<"Int", 5175, 4>>, <<"Imp", 5179, 4>>, <<"Spr", 5183, 4>>, <<"Rpr", 5187, 4>>,
   <<"Lre", 5191, 4>>, <<"Lb0", 5195, 2>>, <<"Nsi", 5197, 2>>, <<"Irchan", 7575, 2>>, <<"Lstart", 7577, 2>>, <<"Ls", 7619, 2>>, <<"Ln", 7621, 2>>,
   <<"Ndgrp", 7811, 4>>, <<"Dmstrt", 7815, 4>>, <<"Dmend", 7819, 4>>, <<"Dmstep", 7823, 4>>, <<"Ncor", 96027, 4>>, <<"Chid1", 96031, 4>>, <<"Chid2", 144515, 4>>}
  \union {<<"Fls " \o ToString(k), 5199 + (2 * k), 2>> : k \in 0..19} \union {<<"Nsl " \o ToString(k), 5239 + (2 * k), 2>> : k \in 0..19}
  \union {<<"Rdpsim " \o ToString(k), 5279 + (2 * k), 2>> : k \in 0..19} \union {<<"Hist1 " \o ToString(k), 5319 + (4 * k), 4>> : k \in 0..255}
  \union {<<"Hist2 " \o ToString(k), 6343 + (4 * k), 4>> : k \in 0..255}
  \union {<<"Earco (" \o ToString((k \div 3) + 1) \o "," \o ToString((k % 3) + 1) \o ")", 7503 + (2 * k), 2>> : k \in 0..11}
  \union {<<"Horlim (" \o ToString((k \div 3) + 1) \o "," \o ToString((k % 3) + 1) \o ")", 7579 + (2 * k), 2>> : k \in 0..11}
Shown(f, q, n) == IF n = 4 THEN Bytes(f, q, 4) ELSE LET b == Bytes(f, q, 2) x == IF b[1] >= 128 THEN 255 ELSE 0 IN <<x, x>> \o b
Hidden(f, q) == (q >= First /\ q < First + Second /\ Rectified(f)) \/ (q >= First + Second + Third /\ ~Composite(f))
PrintedReal ==
  {<<"Ssp", 95, 4>>, <<"Timef", 7367, 8>>, <<"Timel", 7375, 8>>, <<"Htime", 7527, 8>>, <<"Hortim South", 7603, 8>>, <<"Hortim North", 7611, 8>>, <<"Rmid", 7623, 4>>,
   <<"Tmid", 7627, 8>>, <<"Distan", 7635, 8>>, <<"Betaso", 7643, 8>>, <<"Betano", 7651, 8>>, <<"Betase", 7659, 8>>, <<"Betane", 7667, 8>>, <<"Etas", 7675, 8>>,
   <<"Etan", 7683, 8>>, <<"Betasn", 7691, 8>>, <<"Betann", 7699, 8>>, <<"F0old", 7707, 8>>, <<"F1old", 7715, 8>>, <<"F0new", 7723, 8>>, <<"F1new", 7731, 8>>,
   <<"S0", 7755, 8>>, <<"S1", 7763, 8>>, <<"S2", 7771, 8>>, <<"Sigmas", 7779, 8>>}
  \union {<<"Orbf " \o ToString(k), 7383 + (8 * k), 8>> : k \in 0..5} \union {<<"Orbl " \o ToString(k), 7431 + (8 * k), 8>> : k \in 0..5}
  \union {<<"Attf " \o ToString(k), 7479 + (4 * k), 4>> : k \in 0..2} \union {<<"Attl " \o ToString(k), 7491 + (4 * k), 4>> : k \in 0..2}
\* the tables of reals: label, place, elements, columns (0: one number only)
PrintedTables == {<<"Defmax", 7827, 105>>, <<"Defmay", 51927, 105>>, <<"Ewgeo1", 96035, 0>>, <<"Nsgeo1", 108155, 0>>, <<"Roff1", 120275, 0>>, <<"Rgain1", 132395, 0>>,
                  <<"Ewgeo2", 144519, 0>>, <<"Nsgeo2", 156639, 0>>, <<"Roff2", 168759, 0>>, <<"Rgain2", 180879, 0>>}
TableLabel(t, k) == IF t[3] = 0 THEN t[1] \o " " \o ToString(k) ELSE t[1] \o " (" \o ToString((k \div t[3]) + 1) \o "," \o ToString((k % t[3]) + 1) \o ")"
U16(b, k) == (b[k] * 256) + b[k + 1]
RealAt(f, q, n) == LET b == Bytes(f, q, n) IN IF n = 4 THEN RBits32(U16(b, 1), U16(b, 3)) ELSE RBits(U16(b, 1), U16(b, 3), U16(b, 5), U16(b, 7))
ShownReal(out, f, q, n) ==
  IF Hidden(f, q) THEN out = <<-1>>
  ELSE \E v \in {RealAt(f, q, n)} : RIsFinite(v) => out # <<-1>> /\ RClose(L(out), v, R("0.00001"), R("1e-320"))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Word0(f, n) ==
  CASE n = "Product Type" -> CText(Bytes(f, 0, 8)) [] n = "Satellite Name" -> CText(Bytes(f, 32, 2)) [] n = "Rtmet" -> CText(Bytes(f, 72, 15)) [] n = "Idx" -> CText(Bytes(f, 115, 8))
    [] n = "Calctim" -> <<68, 97, 121, 32>> \o Decimal(CalDay(f)) \o <<32, 83, 108, 111, 116, 32>> \o Decimal(CalSlot(f))
PrintOk(f, r) ==
  /\ \A k \in DOMAIN r.labels : \E p \in Printed : p[1] = r.labels[k] /\ r.out.v[k] = IF Hidden(f, p[2]) THEN <<-1>> ELSE Shown(f, p[2], p[3])
  /\ \A k \in DOMAIN r.reals :
                              \/ \E p \in PrintedReal : p[1] = r.reals[k] /\ ShownReal(r.out.x[k], f, p[2], p[3])
                              \/ r.reals[k] = "CalC0" /\ RClose(L(r.out.x[k]), RDiv(Coefficient(f), 100000), R("0.00001"), 0)
                              \/ r.reals[k] = "Space" /\ RClose(L(r.out.x[k]), RDiv(Space(f), 10), R("0.00001"), 0)
  /\ \A k \in DOMAIN r.words : r.out.t[k] = Word0(f, r.words[k])
  \* elements of the tables: the record says which, as table and number
  /\ \A k \in DOMAIN r.cells : LET c == r.cells[k] IN \E t \in PrintedTables : t[1] = c[1] /\ TableLabel(t, c[2]) = c[3] /\ ShownReal(r.out.y[k], f, t[2] + (4 * c[2]), 4)

\* ---- what the file is
Dig(n) == <<48 + n>>
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN <<>> ELSE Pad(n \div 10, w - 1) \o Dig(n % 10)
NameOf(f) == IF Sat(f) = M7 THEN <<77, 69, 84, 69, 79, 83, 65, 84, 32, 55>> ELSE IF Sat(f) = M6 THEN <<77, 69, 84, 69, 79, 83, 65, 84, 32, 54>> ELSE <<-1>>
ChanOf(f) == IF Vis(f) THEN << <<86, 73, 83>>, <<37>> >> ELSE IF Ir(f) THEN << <<73, 82>>, <<75>> >> ELSE IF Wv(f) THEN << <<87, 86>>, <<75>> >> ELSE <<>>
InfoOk(f, r) ==
  LET o == r.out d == DateOf(f) IN
  /\ o.date = d
  /\ o.text = Pad(d[1], 4) \o <<45>> \o Pad(d[2], 2) \o <<45>> \o Pad(d[3], 2) \o <<32>> \o Pad(d[4], 2) \o <<58>> \o Pad(d[5], 2) \o <<58, 48, 48>>
  /\ o.stamp = Pad(d[1], 4) \o Pad(d[2], 2) \o Pad(d[3], 2) \o <<95>> \o Pad(d[4], 2) \o Pad(d[5], 2)
  /\ o.code = CText(Sat(f)) /\ o.name = NameOf(f) /\ o.chan = ChanOf(f) /\ o.field = CText(Bytes(f, 1, 7))
  /\ o.size = <<NLines(f), NPixels(f), 8>> /\ o.radius = 42164 /\ Same(o.ssp, f, 95, 4)
  /\ o.is = <<B(FormatA(f)), B(FormatB(f)), B(~FormatA(f) /\ ~FormatB(f)), B(Vis(f)), B(Ir(f)), B(Wv(f))>>
ImageOk(f, r) ==
  /\ \A k \in DOMAIN r.px : r.out.px[k] = Byte(f, PixelAt(f, r.px[k][1], r.px[k][2]))
  /\ \A k \in DOMAIN r.counts : Near(L(r.out.cal[k]), Calibrated(f, r.counts[k]))
FileBytes(f, at, n) == [k \in 1..n |-> Byte(f, at + k - 1)]
LineOk(f, r) ==
  /\ r.out.head = <<FileBytes(f, r.at, 4), FileBytes(f, r.at + 4, 4), FileBytes(f, r.at + 8, 2), FileBytes(f, r.at + 10, 2), FileBytes(f, r.at + 30, 2)>>
  /\ \A k \in DOMAIN r.px : r.out.px[k] = Byte(f, r.at + LinePrefix + r.px[k])

EndsWith(t, e) == Len(t) >= Len(e) /\ SubSeq(t, Len(t) - Len(e) + 1, Len(t)) = e
\* what OpenMTP_info prints: the text before, the header, every pixel as calibrated
ToolOk(f, r) ==
  IF ~(f.len >= 0 /\ Readable(f)) THEN r.out.status \in 1..255 /\ r.out.said = 1
  ELSE /\ r.out.status = 0 /\ "n" \in DOMAIN r.out
       /\ EndsWith(r.out.ascii, CText(FileBytes(f, 0, 1345))) /\ PrintOk(f, r)
       /\ r.out.n = NLines(f) * NPixels(f)
       /\ \A k \in DOMAIN r.px : r.out.px[k] # <<-1>> /\ RClose(L(r.out.px[k]), Calibrated(f, Byte(f, PixelAt(f, r.px[k][1], r.px[k][2]))), R("0.00001"), R("0.00001"))

Failed(r) == "exc" \in DOMAIN r.out
MyStep(s, r) ==
  CASE r.op = "file" -> {[s EXCEPT !.files[r.n] = [len |-> r.len, seed |-> r.seed, runs |-> r.runs]]}
    [] r.op = "fresh" -> {[s EXCEPT !.cur = Nothing, !.st = "new"]}
    [] r.op = "open" -> LET f == s.files[r.n] IN
         IF f.len >= 0 /\ Readable(f) THEN (IF Failed(r) THEN {} ELSE {[s EXCEPT !.cur = f, !.st = "open"]})
         ELSE IF Failed(r) /\ r.out.exc = "std" THEN {[s EXCEPT !.cur = Nothing, !.st = "lost"]} ELSE {}
    [] r.op = "line" -> LET f == s.files[r.n] IN
         IF r.npix < 0 \/ r.npix > MaxSize \/ r.at + LinePrefix + r.npix > f.len THEN Keep(s, Failed(r)) ELSE Keep(s, ~Failed(r) /\ LineOk(f, r))
    [] r.op = "tool" -> Keep(s, ~Failed(r) /\ ToolOk(s.files[r.n], r))
    [] s.st # "open" -> {s}
    [] Failed(r) -> {}
    [] r.op = "header" -> Keep(s, HeaderOk(s.cur, r))
    [] r.op = "print" -> Keep(s, PrintOk(s.cur, r))
    [] r.op = "info" -> Keep(s, InfoOk(s.cur, r))
    [] r.op = "image" -> Keep(s, ImageOk(s.cur, r))
    [] OTHER -> {}
=============================================================================
