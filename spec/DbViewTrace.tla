---------------------------- MODULE DbViewTrace ----------------------------
(* What db1_to_image and OpenMTP_info were seen to do. State: the directories. *)
EXTENDS DbView, TraceBase
V == INSTANCE Viewers

MyStarts(r) == {[dirs |-> <<>>, open |-> 0, ch |-> ""]}
Keep(s, ok) == IF ok THEN {s} ELSE {}
Failed(o) == o.status \in 1..255 /\ o.said
Pairs(rows, Of(_, _)) == UNION {{<<Of(y - 1, x - 1), rows[y][x]>> : x \in DOMAIN rows[y]} : y \in DOMAIN rows}
DrawOK(s0, r) ==
  LET s == OpenDir(s0, r.d) o == r.out IN
  IF s.open = 0 \/ ~CanSet(s, r.ch, r.codes) THEN Failed(o) /\ o.files = <<>>
  ELSE LET info == IniOf(s, "INFO.DBI") f == RawOf(s, r.ch)
           w == PictureW(info, f) h == PictureH(info) IN
       IF w <= 0 \/ h <= 0 \/ w * h > Len(f.v) \/ r.nowhere = 1 THEN Failed(o) /\ o.files = <<>>
       ELSE IF (w * r.g) \div 100 < 1 \/ (h * r.g) \div 100 < 1 THEN o.status \in 0..255
       ELSE /\ o.status = 0
            /\ o.files = <<PictureName(info, ChannelNo(info, r.codes), r.fmt)>>
            /\ r.pgm = 1 =>
                 /\ o.img.what = "image"
                 /\ IF r.g # 100 THEN V!FitsOK(o.img.xs, o.img.ys, ((w * r.g) \div 100) + 1, ((h * r.g) \div 100) + 1)
                    ELSE /\ o.img.xs = w /\ o.img.ys = h /\ Len(o.img.rows) = h /\ \A y \in 1..h : Len(o.img.rows[y]) = w
                         /\ r.over = 1 \/ V!StretchedOK(Pairs(o.img.rows, LAMBDA y, x : CountAt(f.v, w, h, NorthSouth(info), y, x)))
MyStep(s, r) ==
  IF "exc" \in DOMAIN r.out THEN {}
  ELSE CASE r.op = "dbdir" -> {[s EXCEPT !.dirs = Append(@, NewDir(r))]}
         [] r.op = "dbdraw" -> Keep(s, DrawOK(s, r))
         [] OTHER -> {}
=============================================================================
