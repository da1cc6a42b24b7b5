---------------------------- MODULE SymmetryTrace ---------------------------
(* Recorded pairs of runs: the reference (ref) and the transformed input (tra), both as recorded, with the transformation:
   em  element of ref -> element of tra          vp  for each element: vertex of ref -> vertex of tra
   M/d linear map of the plane (integer matrix over d)     ref/tra: per step, per element [w, z: 3 levels, x, y: momenta] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.SRUNS)
VARIABLES r, l
X == Runs[r]
Abs(x) == IF x < 0 THEN -x ELSE x
Init == r \in DOMAIN Runs /\ l = 1
Next == l < Len(X.ref) /\ l' = l + 1 /\ r' = r
Spec == Init /\ [][Next]_<<r, l>>
IsMap == /\ Len(X.ref) = Len(X.tra) /\ {X.em[i] : i \in DOMAIN X.em} = 1..X.n /\ Len(X.em) = X.n
         /\ X.M[1][1] * X.M[1][2] + X.M[2][1] * X.M[2][2] = 0
         /\ Abs(X.M[1][1] * X.M[2][2] - X.M[1][2] * X.M[2][1]) = X.d * X.d
Near(a, b) == Abs(a - b) <= X.tol * X.d
Alike == LET A == X.ref[l]  B == X.tra[l] IN
    /\ Len(A) = X.n /\ Len(B) = X.n
    /\ \A e \in 1..X.n : LET a == A[e]  b == B[X.em[e]] IN
        /\ a.w = b.w
        /\ \A v \in 1..3 : LET w == X.vp[e][v] IN
            /\ Near(X.d * a.z[v], X.d * b.z[w])
            /\ Near(X.M[1][1] * a.x[v] + X.M[1][2] * a.y[v], X.d * b.x[w])
            /\ Near(X.M[2][1] * a.x[v] + X.M[2][2] * a.y[v], X.d * b.y[w])
=============================================================================
