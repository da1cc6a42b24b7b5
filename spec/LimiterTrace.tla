---------------------------- MODULE LimiterTrace ----------------------------
(* Records of real runs on stars of elements so large that one step only limits.
   LS: [x (scenario), v: per vertex and variable the deviation from the mean after the step, hi: per variable what is left of a
       quadratic part of size bump, bump]
   LM: [id, mean change per variable] *)
EXTENDS Limiter, TLC, Json, IOUtils
CONSTANT Tol
LS == ndJsonDeserialize(IOEnv.LS)
LM == ndJsonDeserialize(IOEnv.LM)
VARIABLES what, r
Init == (what = "s" /\ r \in DOMAIN LS) \/ (what = "m" /\ r \in DOMAIN LM)
Next == UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_<<what, r>>
X == LS[r].x
(* linear: the value at the vertex opposite side b is minus twice that at the midpoint of side b *)
AsLimited == what = "s" => (Clear(X) => LET R == Result(X) IN
    \A v \in 1..3, b \in 1..3 : Abs(LS[r].v[b][v] - (R[v][1] + R[v][2] + R[v][3] - 2 * R[v][b])) <= Tol)
MeanKept == what = "s" => \A v \in 1..3 : Abs(LS[r].v[1][v] + LS[r].v[2][v] + LS[r].v[3][v]) <= 3
Kept(v) == ~Applies(X) \/ (Smooth(X) /\ Clear(X) /\ \A b \in 1..3 : X.thr[b] > 0
                                 /\ CASE v = 1 -> X.c > 1 [] v = 2 -> X.U # 0 [] v = 3 -> X.V # 0)
Cut(v) == LET R == Result(X) IN Clear(X) /\ \E b \in 1..3 : Abs(R[v][b] - X.t[b][v]) > 2 * Tol
Curved == what = "s" => \A v \in 1..3 : /\ (Kept(v) => Abs(LS[r].hi[v] - LS[r].bump[v]) <= 3)
                                        /\ (Cut(v) => Abs(LS[r].hi[v]) <= 3)
MeansKept == what = "m" => \A v \in 1..3 : Abs(LM[r].d[v]) <= 1
=============================================================================
