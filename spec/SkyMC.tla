------------------------------- MODULE SkyMC -------------------------------
(* Laws of the angles and reflectances of Sky, over a grid of days, hours and
   places walked step by step.                                               *)
EXTENDS Sky, TLC
Days == {1, 59, 60, 80, 172, 266, 355, 366}
Hours == {0, 6, 9, 12, 18, 23}
Lats == {-90, -60, -23, 0, 1, 45, 66, 90}
Lons == {-180, -120, -60, -10, 0, 9, 45, 90, 180}
VARIABLES jday, hour, lat, lon
vars == <<jday, hour, lat, lon>>
Init == jday \in Days /\ hour \in Hours /\ lat \in Lats /\ lon \in Lons
Next == UNCHANGED vars
cs == CosSun(jday, hour, lat, lon)
\* a cosine; the sun above the horizon on one side of the Earth only
Cosine == RLe(R("-1.0001"), cs) /\ RLe(cs, R("1.0001"))
AntiLon == IF lon > 0 THEN lon - 180 ELSE lon + 180
Opposite == RClose(RAdd(cs, CosSun(jday, hour, -lat, AntiLon)), 0, 0, R("0.000001"))
\* at the poles there is no hour
Pole == lat \in {90, -90} => RClose(cs, CosSun(jday, (hour + 7) % 24, lat, lon), 0, R("0.000001"))
\* noon at Greenwich: the sun is high in the south, higher than at midnight
Noon == (hour = 12 /\ lon = 0 /\ lat = 0) => RLt(R("0.9"), cs)
\* the satellite is overhead below it, lower the farther away
Lower == (lat \in -60..60 /\ lon \in {10, 20, 45, 9, 60} /\ RLe(SatZenith(lat, lon), 1)) => RLt(SatZenith(lat, lon), RAdd(SatZenith(lat, lon + 5), R("0.0000001")))
\* seen from the satellite and back: a place is found where it is seen
Fwd == LET p == LatLonOf(0, 0, lon) IN p.on /\ REq(p.lat, 0) /\ REq(p.lon, lon)
Rim == ~LatLonOf(RMul(3712 \div 2, 3000), RMul(3712 \div 2, 3000), lon).on
Sym == LET a == LatLonOf(1000000, 2000000, lon)
           b == LatLonOf(-1000000, -2000000, lon)
       IN a.on /\ b.on /\ RClose(a.lat, RNeg(b.lat), R("0.000001"), 0)
RefBound == \A c \in {1, 2, 3, 12} : LET r == Reflectance(c, 5, jday, hour, lat, lon) IN RLe(0, r) /\ RLe(r, 100)
RefMore == \A c \in {1, 2, 3, 12} : RLe(Reflectance(c, 5, jday, hour, lat, lon), Reflectance(c, 6, jday, hour, lat, lon))
Ref39 == LET r == Reflectance39(290, 285, 260, jday, hour, lat, IF lon > 60 THEN 60 ELSE IF lon < -60 THEN -60 ELSE lon) IN RLe(0, r) /\ RLe(r, 100)
=============================================================================
