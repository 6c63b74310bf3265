------------------------------- MODULE MsatMC -------------------------------
(* The msat command on small files: every short command of a few parts, over
   every pair of files.  Laws that do not depend on how a run is computed. *)
EXTENDS MsatTool
VARIABLES r, ran
vars == <<r, ran>>

Geo(x0, y0, w, h, n, chan, t) ==
    MemDataset([xs |-> w, ys |-> h, nb |-> n, mod |-> 251, type |-> "UInt16", scale |-> R("0.5"), ofs |-> -7, nodata |-> 20, file |-> "f",
                gt |-> <<RMul(x0, PixelN), PixelN, 0, RMul(y0, PixelN), 0, RNeg(PixelN)>>, srs |-> [lon |-> R("0")], desc |-> <<"HRV", "two", "3">>,
                dt |-> t, jday |-> 318, hour |-> 12, scid |-> "55", sc |-> "MSG1", chan |-> ChanName(55, chan), chid |-> ToString(chan), nchan |-> chan])
Plain == MemDataset([xs |-> 3, ys |-> 2, nb |-> 2, mod |-> 97, type |-> "Byte", file |-> "p", dt |-> Absent, jday |-> 0, hour |-> 0,
                     scid |-> Absent, sc |-> Absent, chan |-> Absent, chid |-> Absent, nchan |-> 0])
World == [files |-> ("a" :> Geo(-300, 400, 4, 3, 1, 9, "2006-11-14 12:45:00")) @@ ("b" :> Geo(700, -600, 5, 2, 3, 1, "2006-11-14 13:00:00"))
                     @@ ("c" :> Geo(-300, 400, 2, 2, 1, 9, "2006-11-14 12:45:00")) @@ ("p" :> Plain)]
Names == {"a", "b", "c", "p", "missing"}
F(n) == [gfile |-> n]
Lists == {<<F(n)>> : n \in Names} \cup {<<F(n), F(m)>> : n \in Names, m \in Names}
\* the area between the middles of two pixels of "a"
Corner(k) == LET g == World.files["a"].gt IN LatLonOf(RAdd(g[1], RMul(k, g[2])), RAdd(g[4], RMul(k, g[6])), 0)
AreaA(k, m) == <<Corner(m).lat, Corner(k).lat, Corner(k).lon, Corner(m).lon>>
Parts == {None, [srcwin |-> <<1, 1, 1, 1>>], [srcwin |-> <<0, 0, 4, 2>>], [area |-> AreaA(0, 2)], [area |-> AreaA(R("1.1"), R("1.2"))],
          [around |-> <<Corner(1).lat, Corner(1).lon, R("0.01"), R("0.01")>>], [area |-> <<R("80"), R("85"), R("170"), R("175")>>]}
Picks == {None, [bands |-> <<[n |-> 2]>>], [bands |-> <<[name |-> "two"], [name |-> "nobody"], [n |-> 1]>>], [bands |-> <<[n |-> 0]>>]}
Scales == {None, [size |-> <<[pct |-> TRUE, n |-> 50], [pct |-> FALSE, n |-> 3]>>]}
Acts == {[action |-> "view"], [action |-> "png"], [action |-> "conv", drv |-> "GTiff"], [action |-> "conv", drv |-> "MsatGRIB"], [action |-> "conv", drv |-> "Nope"]}
Amends == {None, [copymd |-> F("b")], [copymd |-> F("missing")]}
Force == {None, [force |-> TRUE]}
Init == /\ r \in {[files |-> l] @@ p @@ b @@ z @@ a @@ m @@ f : l \in Lists, p \in Parts, b \in Picks, z \in Scales, a \in Acts, m \in Amends, f \in Force}
        /\ ran = Runs(World, r)
Next == UNCHANGED vars
\* something always happens, and one thing only here (no halves of pixels, no caps)
Decided == Cardinality(ran) = 1
The == CHOOSE m \in ran : TRUE
\* the first file is dealt with as if it were alone, and the second too if the first was fine
Alone(k) == CHOOSE m \in Runs(World, [r EXCEPT !.files = <<r.files[k]>>]) : TRUE
OneByOne == Len(r.files) = 2 =>
    IF Alone(1).code = 1 THEN The = Alone(1)
    ELSE /\ The.code = Alone(2).code
         /\ The.outs = Alone(2).outs @@ [n \in (DOMAIN Alone(1).outs) \ Alone(2).tried |-> Alone(1).outs[n]]
         /\ The.tried = Alone(2).tried
         /\ The.views = Alone(1).views \o Alone(2).views
\* an output is a part of the input: no pixel of it comes from elsewhere
Shape == \A m \in ran : \A n \in DOMAIN m.outs : LET d == m.outs[n].d IN d.xs > 0 /\ d.ys > 0 /\ Len(d.bands) > 0
Named == \A m \in ran : \A n \in DOMAIN m.outs :
    /\ r.action = "png" => Len(n) > 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = ".png"
    /\ "copymd" \in DOMAIN r => SubSeq(n, 1, 11) = "MSG1_Seviri"
\* a place of the Earth goes to the projection and back
Places == {<<lat, lon>> : lat \in {-70, -41, -3, 0, 12, 45, 66}, lon \in {-65, -20, 0, 9, 33, 71}}
There == \A p \in Places : \A l \in {R("0"), R("9.5")} :
    LET g == ToGround([srs |-> Geos(l)], p[1], p[2])
        b == LatLonOf(g.px, g.py, l)
    IN g.on => b.on /\ RClose(b.lat, p[1], 0, R("0.0000001")) /\ RClose(b.lon, p[2], 0, R("0.0000001"))
ASSUME There
=============================================================================
