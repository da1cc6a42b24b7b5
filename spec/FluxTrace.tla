------------------------------ MODULE FluxTrace -----------------------------
(* Face fluxes of real runs. Each record k: the states s, t put into the two elements of three isolated pairs
     fl[1]  normal along x         fl[2]  the same with the order of the two elements swapped
     fl[3]  turned by N = <<nx, ny, d>>
   each [i, e, w, p]: flux given to the element holding s / t (scaled by 4d, unit 1/10000 / 10), w: water let through the
   walls, p: change of each element's volume plus what the faces took from it.
   lat = 1: states are lattice states (s, t); otherwise linear states with no record but the wet flags. *)
EXTENDS Flux, TLC, Json, IOUtils
CONSTANT Tol
FR == ndJsonDeserialize(IOEnv.FR)
VARIABLE k
Init == k \in DOMAIN FR
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
X == FR[k]
Ten(f) == <<10 * f[1], 10 * f[2], 10 * f[3]>>
E1 == <<1, 0, 1>>
ConsistentOK == X.lat = 1 => \A j \in 1..2 : (X.s.wet /\ X.t.wet /\ SameWater(X.s, X.t)) => Close(X.fl[j].i, Ten(Phys(X.s, E1, 1)), Tol)
ConservesOK == \A j \in 1..3 : Conserves(X.s.wet, X.t.wet, X.fl[j], (IF j = 3 THEN X.N[3] ELSE 1) * Tol)
DryOK == \A j \in 1..3 : DryGives(X.s.wet, X.t.wet, X.fl[j], Tol)
SwapOK == Close(X.fl[1].i, X.fl[2].i, Tol) /\ Close(X.fl[1].e, X.fl[2].e, Tol)
Rot(f, n) == <<n[3] * f[1], n[1] * f[2] - n[2] * f[3], n[2] * f[2] + n[1] * f[3]>>
TurnOK == /\ Close(X.fl[3].i, Rot(X.fl[1].i, X.N), 2 * X.N[3] * Tol)
          /\ Close(X.fl[3].e, Rot(X.fl[1].e, X.N), 2 * X.N[3] * Tol)
WallsOK == \A j \in 1..3 : \A i \in DOMAIN X.fl[j].w : Is0(X.fl[j].w[i], Tol)
Booked == \A j \in 1..3 : \A i \in DOMAIN X.fl[j].p : Is0(X.fl[j].p[i], Tol)
=============================================================================
