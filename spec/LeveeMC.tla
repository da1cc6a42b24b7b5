------------------------------ MODULE LeveeMC -------------------------------
(* Two basins at a levee exchanging water by the weir law until nothing moves, for every pair of heads, flags and coefficients
   of a lattice; or a defective exchange, to be told from the property. Volumes are heads (unit area); one transition moves an
   integer amount between floor and ceiling of the discharge scaled down, never past levelling. *)
EXTENDS Levee, TLC, FiniteSets
CONSTANTS Defect, Grid
T == 1
VARIABLES h1, h2, w1, w2, cs, cp, h0, f1, f2
vars == <<h1, h2, w1, w2, cs, cp, h0, f1, f2>>
RECURSIVE Root(_, _)
Root(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Root(x, r + 1)
Q(a, b, u1, u2, s, p) ==
    LET D == Discharge(a, b, u1, u2, s, p, T, 0) IN D.d * (Root(D.lo, 0) \div 16)
Flow == LET q == Q(h1, h2, w1, w2, cs, cp)
            hi == Max(h1, h2)  lo == h1 + h2 - hi
            m == Max(Abs(q), 1)
            cut == IF m > (hi - lo) \div 2 THEN (hi - lo) \div 2 ELSE m
            ok == IF Blocked(h1, h2, w1, w2, T) THEN 0 ELSE (IF h1 > h2 THEN cut ELSE -cut)
        IN CASE Defect = "none" -> <<ok, -ok>>
             [] Defect = "leak" -> <<ok + (IF h1 > h2 + 4 /\ h1 <= T THEN 1 ELSE 0), -ok - (IF h1 > h2 + 4 /\ h1 <= T THEN 1 ELSE 0)>>
             [] Defect = "lost" -> <<ok, IF ok > 0 THEN -ok + 1 ELSE -ok>>
             [] Defect = "backward" -> IF Subcritical(Max(h1, h2), h1 + h2 - Max(h1, h2)) THEN <<-ok, ok>> ELSE <<ok, -ok>>
             [] Defect = "dry" -> LET d == IF h1 > h2 THEN cut ELSE -cut IN IF Max(h1, h2) > T THEN <<d, -d>> ELSE <<ok, -ok>>
Init == /\ h1 \in Grid /\ h2 \in Grid /\ w1 \in BOOLEAN /\ w2 \in BOOLEAN /\ cs \in {2, 3} /\ cp \in {2, 4}
        /\ h0 = h1 + h2 /\ f1 = 0 /\ f2 = 0
Next == \E F \in {Flow} : /\ f1' = F[1] /\ f2' = F[2] /\ h1' = h1 - F[1] /\ h2' = h2 - F[2]
                          /\ w1' = (w1 \/ F[1] < 0) /\ w2' = (w2 \/ F[2] < 0) /\ UNCHANGED <<cs, cp, h0>>
Spec == Init /\ [][Next]_vars
Conserved == h1 + h2 = h0 /\ f1 + f2 = 0
(* only above the crest, only downhill, only from a wet side; stated on transitions *)
Lawful == [][(f1' # 0 => (/\ Max(h1, h2) > T
                          /\ f1' > 0 <=> h1 > h2
                          /\ IF h1 > h2 THEN w1 ELSE w2))]_vars
Grid0 == {-6, -1, 0, 1, 2, 5, 9, 14, 20, 29}
(* mirrored problem, mirrored exchange *)
Mirror == \A a \in {h1}, b \in {h2} : Q(a, b, w1, w2, cs, cp) = -Q(b, a, w2, w1, cs, cp)
=============================================================================
