------------------------------- MODULE GridMC -------------------------------
(* A sampling grid converted from one of its three forms to another, again
   and again: it does not drift. *)
EXTENDS Grid, TLC, Json, Integers
CONSTANT Hops
VARIABLES form, val, first, hops, from
Discs == {500, 1000, 1811, 3608, 3622, 3640, 5000, 10866, 7244}
Sizes == {"3000.40307617188", "1000.13433837891", "3000.4035", "2999.9", "1000", "4500.5", "750.25"}
\* the same, mirrored
Init == /\ hops = 0
        /\ \/ form = "disc" /\ val \in {R(d) : d \in Discs}
           \/ form = "size" /\ val \in {R(x) : x \in Sizes} \union {RNeg(R(x)) : x \in Sizes}
           \/ form = "fac" /\ val \in {RMul(f, Res16) : f \in {CfacN, CfacH, CfacN + 1, 10000000}} \union {RMul(-f, Res16) : f \in {CfacN, CfacH, 20000000}}
        /\ first = val /\ from = form
Conv(f, v) == form' = f /\ val' = v /\ hops' = hops + 1 /\ UNCHANGED <<first, from>>
Next == /\ hops < Hops
        /\ \/ form = "disc" /\ (Conv("fac", FacOfDisc(val)) \/ Conv("size", SizeOfDisc(RInt(val))))
           \/ form = "size" /\ (Conv("fac", FacOf(val)) \/ (RLt(0, val) /\ Conv("disc", R(DiscOf(val)))))
           \/ form = "fac" /\ (Conv("size", SizeOf(val)) \/ (RLt(0, val) /\ Conv("disc", R(DiscOfFac(val)))))
\* the disc says the grid to a pixel only: half a pixel of it; and the usual normal grid is called 3608 or 3622 pixels wide, a four in a thousand apart
Tolerance == R("0.006")
As(f, v) == CASE f = "fac" -> v [] f = "size" -> FacOf(v) [] f = "disc" -> IF v = R(3622) \/ v = R(3608) THEN FacOf(PixelN) ELSE FacOfDisc(v)
NoDrift == RClose(As(form, val), As(from, first), Tolerance, 0)
\* without going through whole pixels nothing is lost, the usual grids are said exactly
Exact == (hops >= 1 /\ form = "size" /\ from = "size" /\ first \in {PixelN, PixelH}) => val \in {PixelN, PixelH, SizeOfDisc(10866)} \/ RClose(val, first, R("0.001"), 0)
Emit == PrintT("@E " \o ToJson([form |-> form, val |-> val]))
=============================================================================
