-------------------------------- MODULE Sky --------------------------------
(* Where a pixel is on the Earth, where the sun and the satellite stand above
   it, and what is computed from them.  All numbers are reals of Real64.     *)
EXTENDS Real64, Sequences

\* --- calendar -------------------------------------------------------------
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOfYear(y, m, d) == DaysBefore[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
\* civil date of a day counted from 1958-01-01
Civil(day) ==
    LET z == day + 715085            \* from 0000-03-01
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN [y |-> y, m |-> m, d |-> d]

\* --- geostationary view (sweep around y) -----------------------------------
EarthA == R("6378169")
InvF == R("295.488065897")
GeosH == R("35785831")
\* projected metres to degrees; lon0: longitude below the satellite
LatLonOf(px, py, lon0) ==
    LET f == RDiv(1, InvF)
        es == RSub(RMul(2, f), RMul(f, f))
        oneEs == RSub(1, es)                    \* (polar radius / equatorial radius)^2
        g1 == RDiv(GeosH, EarthA)
        g == RAdd(1, g1)
        C == RSub(RMul(g, g), 1)
        x == RDiv(px, EarthA)
        y == RDiv(py, EarthA)
        vy == RTan(RDiv(x, g1))
        vz == RMul(RTan(RDiv(y, g1)), RSqrt(RAdd(1, RMul(vy, vy))))
        a == RAdd(RAdd(RMul(vy, vy), RDiv(RMul(vz, vz), oneEs)), 1)
        b == RMul(RMul(2, g), R("-1"))
        det == RSub(RMul(b, b), RMul(RMul(4, a), C))
    IN IF RLt(det, 0) THEN [on |-> FALSE, lat |-> 0, lon |-> 0]
       ELSE LET k == RDiv(RSub(RNeg(b), RSqrt(det)), RMul(2, a))
                ux == RSub(g, k)
                uy == RMul(vy, k)
                uz == RMul(vz, k)
                lam == RAtan2(uy, ux)
                phi == RAtan(RMul(RDiv(1, oneEs), RTan(RAtan(RDiv(RMul(uz, RCos(lam)), ux)))))
                lon == RAdd(Deg(lam), lon0)
            IN [on |-> TRUE, lat |-> Deg(phi),
                lon |-> IF RLt(180, lon) THEN RSub(lon, 360) ELSE IF RLt(lon, R("-180")) THEN RAdd(lon, 360) ELSE lon]

\* --- sun and satellite -----------------------------------------------------
CosSun(jday, hour, lat, lon) ==
    LET dang == RDiv(RMul(RMul(2, Pi), jday - 1), R("365.242"))
        d2 == RMul(2, dang)
        homp == RAdd(RAdd(RSub(RAdd(12, RMul(R("0.123570"), RSin(dang))), RMul(R("0.004289"), RCos(dang))),
                          RMul(R("0.153809"), RSin(d2))), RMul(R("0.060783"), RCos(d2)))
        hang == RAdd(RMul(15, RSub(hour, homp)), lon)
        ang == RAdd(Rad(R("279.9348")), dang)
        a2 == RMul(2, ang)
        sigma == Rad(RAdd(RSub(RAdd(RAdd(Deg(ang), RMul(R("0.4087"), RSin(ang))), RMul(R("1.8724"), RCos(ang))),
                               RMul(R("0.0182"), RSin(a2))), RMul(R("0.0083"), RCos(a2))))
        sd == RMul(R("0.3978"), RSin(sigma))
        cd == RSqrt(RSub(1, RMul(sd, sd)))
    IN RAdd(RMul(sd, RSin(Rad(lat))), RMul(RMul(cd, RCos(Rad(lat))), RCos(Rad(hang))))

SatZenith(lat, lon) ==
    LET cosg == RMul(RCos(Rad(lon)), RCos(Rad(lat)))
        rrh == RDiv(R("6378.1370"), R("42164"))
    IN RSub(RDiv(Pi, 2), RAtan(RDiv(RSub(cosg, rrh), RSqrt(RSub(1, RMul(cosg, cosg))))))

\* --- radiances, temperatures, reflectances ---------------------------------
C1 == R("0.0000119104")
C2 == R("1.43877")
Wave == <<R("0"), R("0"), R("0"), R("2569.094"), R("1598.566"), R("1362.142"), R("1149.083"), R("1034.345"), R("930.659"), R("839.661"), R("752.381"), R("0")>>
BandA == <<1, 1, 1, R("0.9959"), R("0.9963"), R("0.9991"), R("0.9996"), R("0.9999"), R("0.9983"), R("0.9988"), R("0.9981"), 1>>
BandB == <<0, 0, 0, R("3.471"), R("2.2219"), R("0.485"), R("0.181"), R("0.060"), R("0.627"), R("0.397"), R("0.576"), 0>>
Thermal(c) == c \in 4..11
Cube(v) == RMul(RMul(v, v), v)
Pow4(v) == RMul(RMul(v, v), RMul(v, v))
\* brightness temperature of a radiance
Brightness(c, rad) ==
    RDiv(RSub(RDiv(RMul(C2, Wave[c]), RLog(RAdd(RDiv(RMul(C1, Cube(Wave[c])), rad), 1))), BandB[c]), BandA[c])

Cos80 == R("0.173648178")
SunDist(jday) == RSub(1, RMul(R("0.0167"), RCos(RDiv(RMul(RMul(2, Pi), jday - 3), R("365")))))
TopRad(c) == CASE c = 1 -> R("20.76") [] c = 2 -> R("23.24") [] c = 3 -> R("19.85") [] c = 12 -> R("25.11")
Clamp(v, lo, hi) == IF RIsNaN(v) THEN R(0) ELSE R(RMax(lo, RMin(hi, v)))
Reflectance(c, rad, jday, hour, lat, lon) ==
    LET tr == RDiv(TopRad(c), RMul(SunDist(jday), SunDist(jday)))
    IN Clamp(RDiv(RDiv(RMul(100, rad), tr), RMax(CosSun(jday, hour, lat, lon), Cos80)), 0, 100)

Radiance39(t) == RDiv(RMul(C1, Cube(Wave[4])), RSub(RExp(RDiv(RMul(C2, Wave[4]), RAdd(RMul(BandA[4], t), BandB[4]))), 1))
Reflectance39(t39, t108, t134, jday, hour, lat, lon) ==
    LET cool == RSub(t108, RDiv(RSub(t108, t134), 4))
        t == RPow(RSub(RAdd(Pow4(t39), Pow4(t108)), Pow4(cool)), R("0.25"))
        rtot == RAdd(Radiance39(t), R("0.015"))
        corr == Pow4(RDiv(cool, t108))
        rth == RMul(Radiance39(t108), corr)
        cs == RMax(CosSun(jday, hour, lat, lon), Cos80)
        e == SunDist(jday)
        toa == RMul(RMul(RMul(RDiv(R("4.92"), RMul(e, e)), RPow(cs, R("0.75"))), RExp(RMul(RSub(corr, 1), cs))),
                    RExp(RDiv(RSub(corr, 1), RCos(SatZenith(lat, lon)))))
        num == IF RLe(rtot, rth) THEN R("0.0000001") ELSE RSub(rtot, rth)
        den == IF RLe(toa, rth) THEN RAdd(rth, R("0.0000001")) ELSE toa
    IN Clamp(RDiv(RMul(100, num), den), 0, 100)
=============================================================================
