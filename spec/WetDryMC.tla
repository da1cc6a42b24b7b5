------------------------------ MODULE WetDryMC ------------------------------
(* One element under any inflow/outflow (an arbitrary change of nodal depths and momenta), then the wetting-drying step. *)
EXTENDS WetDry, TLC, Json, IOUtils
CONSTANTS Depths, Beds, Moves, Defect
Lat(S) == {12 * x : x \in S}
DepthsMC == Lat({-2, 0, 1, 2, 3, 5, 9})
BedsMC == Lat({0, 1, 4})
MovesMC == Lat({-5, -1, 0, 2})
DepthsBig == Lat({-7, -2, 0, 1, 2, 3, 4, 5, 9, 14})
BedsBig == Lat({-3, 0, 1, 4, 6})
VARIABLES s, b, last, c
vars == <<s, b, last, c>>
NilS == R(Const(0), Const(0), Const(0), FALSE)
M0 == <<6, -12, 30>>
M1 == <<-18, 6, 24>>
Init == /\ b \in [V -> Beds] /\ c = 0 /\ last = NilS
        /\ \E h \in [V -> Depths] : s = Classified(R(h, M0, M1, TRUE))
Bad(S, old) == CASE Defect = "none" -> S
             [] Defect = "mean" -> {[t EXCEPT !.h = [v \in V |-> Hi(old.h[v], 0)]] : t \in S}
             [] Defect = "flag" -> {[t EXCEPT !.wet = old.wet] : t \in S}
             [] Defect = "push" -> {[t EXCEPT !.mx = old.mx] : t \in S}
             [] Defect = "drop" -> {IF t.wet THEN [t EXCEPT !.my = [v \in V |-> IF t.h[v] <= Ho THEN 0 ELSE old.my[v]]] ELSE t : t \in S}
Pre(h) == R(h, M0, M1, s.wet)
Next == /\ c < 1
        /\ \E h \in [V -> Depths] : /\ last' = Pre(h) /\ s' \in Bad(Step(Pre(h), b), Pre(h))
        /\ c' = c + 1 /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
Lawful == c > 0 => Good(last, s, b)
InitLawful == c = 0 => NonNegative(s) /\ WetIsDeep(s) /\ DryIsStill(s)
(* a step repeated without change of the water keeps the element as it is, except that a film may rewet by level *)
Settled == c > 0 => \A t \in Step(s, b) : Sum(t.h) = Sum(s.h) /\ (s.wet /\ DryV(s.h) = {} => t = s)
=============================================================================
