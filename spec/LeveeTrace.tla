----------------------------- MODULE LeveeTrace -----------------------------
(* Records of real runs.
   LP: points of levee faces: [h1, h2, w1, w2 (0/1), cs, cp, T, e, f1, f2]
   LF: levee faces: [h1, h2, w1, w2, T, v: sequence of [i, e] (integrated flux of every variable given to the two sides, in all
       numberings, orientations and cuts of the same face), wall: [i, e] of the same elements behind a wall]  *)
EXTENDS Levee, TLC, Json, IOUtils
CONSTANT Tol
LP == ndJsonDeserialize(IOEnv.LP)
LF == ndJsonDeserialize(IOEnv.LF)
VARIABLES what, k
Init == \/ what = "p" /\ k \in DOMAIN LP
        \/ what = "f" /\ k \in DOMAIN LF
Next == UNCHANGED <<what, k>>
Spec == Init /\ [][Next]_<<what, k>>
P == LP[k]
WeirLaw == what = "p" => \/ Unsure(P[1], P[2], P[7], P[8])
                         \/ Obeys(P[9], P[10], P[1], P[2], P[3] = 1, P[4] = 1, P[5], P[6], P[7], P[8], Tol)
X == LF[k]
Close(f, g) == \A j \in 1..3 : Abs(f[j] - g[j]) <= 2
SameHowever == what = "f" => \A n \in DOMAIN X.v : Close(X.v[n].i, X.v[1].i) /\ Close(X.v[n].e, X.v[1].e)
Conserved == what = "f" => \A n \in DOMAIN X.v : Abs(X.v[n].i[1] + X.v[n].e[1]) <= 2
ActsAsWall == what = "f" =>
    (Blocked(X.h1, X.h2, X.w1, X.w2, X.T) /\ (X.w1 \/ X.w2) => \A n \in DOMAIN X.v :
        /\ X.w1 => Close(X.v[n].i, X.wall.i)
        /\ X.w2 => Close(X.v[n].e, X.wall.e)
        /\ Abs(X.v[n].i[1]) <= 1 /\ Abs(X.v[n].e[1]) <= 1)
BothDry == what = "f" => (~X.w1 /\ ~X.w2 => \A n \in DOMAIN X.v : X.v[n].i = <<0, 0, 0>> /\ X.v[n].e = <<0, 0, 0>>)
=============================================================================
