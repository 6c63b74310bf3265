------------------------------ MODULE CodesMC ------------------------------
(* A satellite written and read back in its three forms, over and over: it
   stays the same satellite.  A channel goes through its wavelength. *)
EXTENDS Codes, TLC, Json
VARIABLES form, val, origin, hops
Init == \/ form = "hrit" /\ val \in {e[1] : e \in HritWmo} /\ origin = SatOfHRIT(val) /\ hops = 0
        \/ form = "wmo" /\ val \in {e[1] : e \in SatNames} /\ origin = val /\ hops = 0
Go(f, v) == form' = f /\ val' = v /\ hops' = hops + 1 /\ UNCHANGED origin
Next == /\ hops < 6
        /\ \/ form = "hrit" /\ Go("wmo", SatOfHRIT(val))
           \/ form = "wmo" /\ HRITOfSat(val) # 0 /\ Go("hrit", HRITOfSat(val))
           \/ form = "wmo" /\ SatIdOf(SatName(val)) # -1 /\ Go("name", SatName(val))
           \/ form = "name" /\ Go("wmo", SatIdOf(val))
Kept == CASE form = "hrit" -> SatOfHRIT(val) = origin [] form = "wmo" -> val = origin [] form = "name" -> SatIdOf(val) = origin
\* the meteosats of the second generation are known in every form
Msg == \A w \in {55, 56, 57, 70} : HRITOfSat(w) # 0 /\ SatName(w) # "unknown" /\ SatIdOf(SatName(w)) = w /\ Seviri(w)
Emit == PrintT("@E " \o ToJson([form |-> form, val |-> val]))
=============================================================================
