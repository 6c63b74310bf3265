------------------------------ MODULE GeorefMC ------------------------------
(* The inverse of every small geotransform, rotated and flipped ones included,
   brings every pixel back; crops keep the ground under their pixels.        *)
EXTENDS Raster, Json
Small == {-3, -1, 0, 1, 2}
Offs == {0, 7}
VARIABLES g, x, y
vars == <<g, x, y>>
Init == /\ g \in {<<o, a, b, -2 * o, c, d>> : o \in Offs, a \in Small, b \in Small, c \in Small, d \in Small}
        /\ x = 0 /\ y = 0
Next == \/ x < 2 /\ x' = x + 1 /\ UNCHANGED <<g, y>>
        \/ y < 2 /\ y' = y + 1 /\ UNCHANGED <<g, x>>
Back == Invertible(g) =>
    LET p == Forward(g, x, y)
        q == Forward(InvGt(g), p[1], p[2])
    IN RClose(q[1], x, 0, R("0.000001")) /\ RClose(q[2], y, 0, R("0.000001"))
Twice == Invertible(g) => LET h == InvGt(InvGt(g)) IN \A k \in 1..6 : RClose(h[k], g[k], R("0.000001"), R("0.000001"))
Singular == ~Invertible(g) => g[2] * g[6] = g[3] * g[5]
Emit == (x = 0 /\ y = 0) => PrintT("@E " \o ToJson(g))
=============================================================================
