---------------------------- MODULE FactsTrace -----------------------------
(* What the real code tables, grid conversions and times were seen to do. *)
EXTENDS Codes, Grid, Times, TraceBase

\* state: the bytes each kind of time object was last read from, <<>> if none
MyStarts(r) == {[k \in Kinds |-> <<>>]}

Exc(r) == "exc" \in DOMAIN r.out /\ r.out.exc = "std"
Ok(r) == ~("exc" \in DOMAIN r.out)
Eq(a, b) == RClose(a, b, R("0.0000000000001"), 0)
EqNan(a, b) == IF RIsNaN(b) THEN RIsNaN(a) ELSE Eq(a, b)
\* a whole number nearest to x, to the precision of x
Nearest(n, x) == RLe(RAbs(RSub(x, n)), R("0.5000001"))

ChanOfWave(w) == LET t == {c \in 1..12 : RClose(RMul(w, 10), Wavelengths[c], 0, R("0.4999"))} IN t
FarWave(w) == \A c \in 1..12 : ~RClose(RMul(w, 10), Wavelengths[c], 0, R("0.5001"))

Same(o, x) == o.h = x /\ o.v = x
Like(o, x) == Eq(o.h, x) /\ Eq(o.v, x)
DiscExact(c) == RDiv(RMul(RMul(Limb, c), 360), Pi)

GridOk(f, x, o) ==
  CASE f = "size" -> Like(o, SizeOf(x))
    [] f = "fac" -> Like(o, FacOf(x))
    [] f = "disc" -> IF Near(x, PixelN) THEN Same(o, 3622) ELSE Nearest(o.h, DiscExact(FacOf(x))) /\ Nearest(o.v, DiscExact(FacOf(x)))
    [] f = "discoffac" -> \A k \in DOMAIN o : Nearest(o[k], DiscExact(x))
    [] f = "facofdisc" -> \A k \in DOMAIN o : Eq(o[k], FacOfDisc(x))
    [] f = "sizeofdisc" -> Like(o, SizeOfDisc(RInt(x)))

MyStep(s, r) ==
  LET ok == CASE r.op = "sat" -> Ok(r) /\ r.out = [wmo |-> SatOfHRIT(r.id), hrit |-> HRITOfSat(r.id), name |-> SatName(r.id), sensor |-> SensorName(r.id), label |-> Label(r.id)]
              [] r.op = "satname" -> Ok(r) /\ r.out.id = SatIdOf(r.name)
              [] r.op = "chan" -> Ok(r) /\ r.out.name = ChanName(r.sat, r.chan) /\ r.out.unit = ChanUnit(r.sat, r.chan) /\ r.out.level = ChanLevel(r.sat, r.chan)
                                  /\ r.out.digits = Digits10(r.chan) /\ EqNan(r.out.packed, MissingPacked(r.chan)) /\ EqNan(r.out.scaled, MissingScaled(r.chan))
              [] r.op = "label" -> Ok(r) /\ r.out.label = ChanLabel(r.sat, r.chan)
              [] r.op = "wave" -> IF Seviri(r.sat) /\ r.chan \in 1..12
                                  THEN Ok(r) /\ Eq(r.out.length, RDiv(Wavelengths[r.chan], 10)) /\ Eq(r.out.number, RDiv(10000000, Wavelengths[r.chan]))
                                  ELSE Exc(r)
              [] r.op \in {"ofwave", "ofnumber"} ->
                    LET w == IF r.op = "ofwave" THEN r.w ELSE RDiv(1000000, r.w) IN
                    IF ~Seviri(r.sat) \/ FarWave(w) THEN Exc(r)
                    ELSE IF ChanOfWave(w) # {} THEN Ok(r) /\ r.out.chan \in ChanOfWave(w) ELSE TRUE
              [] r.op = "grid" -> Ok(r) /\ GridOk(r.f, r.x, r.out)
              [] r.op = "jday" -> Ok(r) /\ r.out.jday = DayOfYear(r.y, r.m, r.d)
              [] r.op = "sun" -> /\ Ok(r)
                                 /\ LET c == CosSun(r.jday, RAdd(r.H, RDiv(r.M, 60)), r.lat, r.lon) IN
                                    /\ RClose(r.out.date, c, 0, R("0.000000000001")) /\ RClose(r.out.day, c, 0, R("0.000000000001")) /\ RClose(r.out.hour, c, 0, R("0.000000000001"))
                                    \* (below the satellite itself the formula loses its digits)
                                    /\ RClose(r.out.sat, SatZenith(r.lat, r.lon), 0, R("0.000001"))
              [] r.op = "tz" -> Ok(r)
              [] r.op = "tread" -> Ok(r) /\ r.out.n = Width(r.kind)
              [] r.op = "told" ->
                   LET b == s[r.kind] IN
                   /\ Ok(r)
                   /\ b # <<>> =>
                      CASE r.kind = "cuc" -> r.out.coarse = CucCoarse(b) /\ r.out.fine = CucFine(b) /\ Eq(r.out.value, CucValue(b))
                        [] r.kind = "general" ->
                             GenGood(b) => /\ r.out.text = TextOf(r.kind, b) /\ r.out.ctext = r.out.text /\ r.out.char = r.out.text /\ r.out.shown
                                           /\ r.out.unix = GenInstant(b) /\ r.out.tm = GenParts(b)
                        [] OTHER -> LET t == CdsInstant(b) IN
                                    /\ r.out.text = TextOf(r.kind, b) /\ r.out.ctext = r.out.text /\ r.out.char = r.out.text /\ r.out.shown
                                    /\ r.out.unix = [day |-> t.day, sec |-> t.sec] /\ r.out.tm = Parts(t)
                                    /\ r.kind \in {"cds", "expanded"} => r.out.us = W16(b, 6)
                                    /\ r.kind = "expanded" => r.out.ns = W16(b, 8)
              [] OTHER -> FALSE
  IN IF ~ok THEN {} ELSE IF r.op = "tread" THEN {[s EXCEPT ![r.kind] = r.bytes]} ELSE {s}
=============================================================================
