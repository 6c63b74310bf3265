-------------------------------- MODULE Grid --------------------------------
(* The sampling grid of the satellite: how far apart columns and lines are,
   said in three ways that convert into each other: the factor of the HRIT
   navigation record (columns per degree, times 2^16), the size of a pixel
   below the satellite in metres, and the apparent diameter of the Earth in
   pixels (GRIB).  The grids in use have exact, conventional values. *)
EXTENDS Real64, Sequences

EarthR == R("6378.1370")
OrbitR == R("42164")
Above == RSub(OrbitR, EarthR)
PixelN == R("3000.40307617188")        \* normal channels
PixelH == R("1000.13433837891")        \* high resolution visible
Res16 == RPow(2, R("-16"))
CfacN == 13642337
CfacH == 40927000

Signed(ps, v) == IF RLt(ps, 0) THEN RNeg(v) ELSE v
\* the factor as the integer of the navigation record
Fac16(c) == LET f == RRound(RMul(RAbs(c), 65536)) IN IF RLt(f, 2000000000) THEN RInt(f) ELSE 0
\* pixel size, of columns per radian-degree factor
SizeOf(c) == IF Fac16(c) = CfacN THEN Signed(c, PixelN)
             ELSE IF Fac16(c) = CfacH THEN Signed(c, PixelH)
             ELSE RMul(RMul(Above, RTan(RDiv(RDiv(Pi, 180), c))), 1000)
Near(a, b) == RLt(RAbs(RSub(a, b)), R("0.001"))
FacOf(ps) == IF Near(RAbs(ps), PixelN) THEN Signed(ps, RMul(CfacN, Res16))
             ELSE IF Near(RAbs(ps), PixelH) THEN Signed(ps, RMul(CfacH, Res16))
             ELSE RDiv(RDiv(Pi, RAtan(RDiv(ps, RMul(Above, 1000)))), 180)
Limb == RAsin(RDiv(EarthR, OrbitR))
\* whole pixels that the Earth appears wide
DiscOfFac(c) == RInt(RRound(RDiv(RMul(RMul(Limb, c), 360), Pi)))
FacOfDisc(dx) == RDiv(RMul(dx, Pi), RMul(Limb, 360))
DiscOf(ps) == IF Near(ps, PixelN) THEN 3622 ELSE DiscOfFac(FacOf(ps))
SizeOfDisc(dx) == IF dx \in {3608, 3622} THEN PixelN ELSE SizeOf(FacOfDisc(dx))
=============================================================================
