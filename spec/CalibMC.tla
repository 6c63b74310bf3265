------------------------------ MODULE CalibMC ------------------------------
(* Laws of the calibration in Raster: counts walked upwards in every channel. *)
EXTENDS Raster
CONSTANTS MaxCount
VARIABLES chan, n, t
Slope == R("0.2")
Ofs == R("-0.5")
T(c, k) == IF Thermal(c) THEN Kelvin(c, k, Slope, Ofs) ELSE RAdd(RMul(k, Slope), Ofs)
Init == chan \in 1..12 /\ n = 1 /\ t = T(chan, 1)
Next == n < MaxCount /\ n' = n + 1 /\ t' = T(chan, n + 1) /\ UNCHANGED chan
\* more counts, more radiance, higher temperature; a temperature is never negative nor undefined
Rising == [][RLe(t, t')]_<<chan, n, t>>
Sane == ~RIsNaN(t) /\ RIsFinite(t) /\ (Thermal(chan) => RLe(0, t))
\* Planck's law and its inverse agree (3.9 micrometres, where the code uses both)
PlanckInverse == (chan = 4 /\ RLt(0, t)) => LET c == RAdd(RMul(n, Slope), Ofs) IN RClose(Radiance39(Brightness(4, c)), c, R("0.0000001"), 0)
============================================================================
