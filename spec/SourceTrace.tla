----------------------------- MODULE SourceTrace ----------------------------
(* Records of one real step.
   XF: [x, f: change of momentum per area beyond the face fluxes (1e-7), m: the same for water]
   XI: implicit steps: [x: the state that must be reached, q, want: reached and wanted momentum, z: change of level]
   XS: [nd, g, f: change of momentum beyond the face fluxes (1e-4), m]
   XR: runs with a file of Manning numbers: [missing: nodes it leaves out, extra: other nodes in it, ran]
   XV: friction on states varying along one direction: [weak, strong (the extreme cases), f, m] *)
EXTENDS Source, TLC, Json, IOUtils
XF == ndJsonDeserialize(IOEnv.XF)
XI == ndJsonDeserialize(IOEnv.XI)
XS == ndJsonDeserialize(IOEnv.XS)
XR == ndJsonDeserialize(IOEnv.XR)
XV == ndJsonDeserialize(IOEnv.XV)
VARIABLES what, r
Init == \/ what = "f" /\ r \in DOMAIN XF
        \/ what = "i" /\ r \in DOMAIN XI
        \/ what = "s" /\ r \in DOMAIN XS
        \/ what = "v" /\ r \in DOMAIN XV
        \/ what = "r" /\ r \in DOMAIN XR
Next == UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_<<what, r>>
Near(p, q, tol) == \A k \in 1..2 : Abs(p[k] - q[k]) <= tol
FrictionLaw == what = "f" => Near(XF[r].f, Friction(XF[r].x), 4)
Implicit == what = "i" => Near(XI[r].q, XI[r].want, XI[r].tol) /\ Abs(XI[r].z) <= XI[r].tol
SlopeLaw == what = "s" => Near(XS[r].f, Slope(XS[r].nd, XS[r].g), 2)
(* friction is never made up: all the nodes of the mesh have a number, or there is no run *)
Covered == what = "r" => XR[r].ran = (XR[r].missing = 0)
(* along the flow, against it, between the laws at the extremes *)
Varying == what = "v" =>
    LET v == XV[r] x == v.weak along == v.f[1] * x.a + v.f[2] * x.b across == v.f[1] * x.b - v.f[2] * x.a
        lo == Friction(x) hi == Friction(v.strong)
    IN /\ Abs(across) <= 4 * x.e
       /\ along >= hi[1] * x.a + hi[2] * x.b - 6 * x.e
       /\ along <= lo[1] * x.a + lo[2] * x.b + 6 * x.e
WaterKept == CASE what = "f" -> Abs(XF[r].m) <= 1 [] what = "s" -> Abs(XS[r].m) <= 1 [] what = "v" -> Abs(XV[r].m) <= 1 [] OTHER -> TRUE
=============================================================================
