----------------------------- MODULE LimiterMC ------------------------------
(* Every neighbourhood of a small lattice: the limiter (or a defective one) against what limiting is for. *)
EXTENDS Limiter, TLC
CONSTANT Defect
Geos == {[m |-> <<<<6, 0>>, <<0, 8>>, <<-6, -8>>>>, d |-> <<6, 8, 10>>, n |-> <<<<12, 4>>, <<-3, 16>>, <<-12, -19>>>>],
         [m |-> <<<<18, -24>>, <<10, 24>>, <<-28, 0>>>>, d |-> <<30, 26, 28>>, n |-> <<<<46, -48>>, <<20, 48>>, <<-56, 12>>>>]}
Sums(p, q) == <<p, q, -p - q>>
Fields == {[z |-> Sums(p, q), x |-> Sums(r, s)] : p \in {-300, 200}, q \in {0, 400}, r \in {0, 300}, s \in {-200, 100}}
T(f) == [b \in 1..3 |-> <<f.z[b], f.x[b], f.z[b] - f.x[b]>>]
(* value of the linear field at offset o *)
At(g, f, o, v) == RDiv(f[1][v] * Cross(o, g.m[2]) + f[2][v] * Cross(g.m[1], o), Cross(g.m[1], g.m[2]))
Base(g, f, nb, th, nu, U) == [c |-> 2, U |-> U, V |-> 1, m |-> g.m, d |-> g.d, n |-> g.n, t |-> T(f), nb |-> nb,
                           thr |-> <<th, th, th>>, nu2 |-> nu, wet |-> TRUE, nwet |-> <<TRUE, TRUE, TRUE>>]
Means == {<<0, 0, 0>>, <<500, -300, 100>>, <<-250, 0, 700>>}
VARIABLES x, lin
Init == \E g \in Geos, f \in Fields, th \in {0, 150}, nu \in {2, 3}, U \in {0, 5} :
        \/ lin = FALSE /\ \E p, q, r \in Means : x = Base(g, f, <<p, q, r>>, th, nu, U)
        \/ lin = FALSE /\ \E e \in 1..3 : x = [Base(g, f, <<<<0, 0, 0>>, <<500, -300, 100>>, <<-250, 0, 700>>>>, th, nu, U)
                                                EXCEPT !.nwet[e] = FALSE]
        \/ lin = TRUE /\ x = Base(g, f, [b \in 1..3 |-> [v \in 1..3 |-> At(g, T(f), g.n[b], v)]], th, nu, U)
        \/ lin = FALSE /\ x = [Base(g, f, [b \in 1..3 |-> <<0, 0, 0>>], 2000, nu, U) EXCEPT !.n = [b \in 1..3 |-> <<2 * g.m[b][1], 2 * g.m[b][2]>>]]
Next == UNCHANGED <<x, lin>>
Spec == Init /\ [][Next]_<<x, lin>>
Lim(y, b) ==
    LET w == Wanted(y, b) a == Allowed(y, b) IN
    CASE Defect = "sign" -> Back(y, b, [k \in 1..3 |-> IF Abs(w[k]) <= y.thr[b] THEN w[k] ELSE IF w[k] > 0 THEN Min(w[k], Abs(a[k])) ELSE -Min(-w[k], Abs(a[k]))])
      [] Defect = "tvb" -> Back(y, b, [k \in 1..3 |-> Minmod([y EXCEPT !.thr = <<0, 0, 0>>], b, w[k], a[k])])
      [] Defect = "pair" -> LET al == Alpha(y, b) u == Char(y, b, y.nb[b]) v == Char(y, b, y.nb[Next3(b)])
                                s == [k \in 1..3 |-> RDiv(al[2] * u[k] + al[1] * v[k], al[3])]
                            IN Back(y, b, [k \in 1..3 |-> Minmod(y, b, w[k], s[k])])
      [] Defect = "over" -> Back(y, b, [k \in 1..3 |-> IF w[k] > 0 /\ a[k] > 0 THEN Max(w[k], a[k]) ELSE IF w[k] < 0 /\ a[k] < 0 THEN -Max(-w[k], -a[k]) ELSE 0])
      [] OTHER -> Limited(y, b)
Res(y) ==
    IF Defect # "dry" /\ ~Applies(y) THEN Result(y)
    ELSE LET l == [b \in 1..3 |-> Lim(y, b)] IN [v \in 1..3 |-> IF Defect = "balance" THEN [b \in 1..3 |-> l[b][v]] ELSE Balance([b \in 1..3 |-> l[b][v]])]
R == Res(x)
Was(v) == [b \in 1..3 |-> x.t[b][v]]
Same(r, s, tol) == \A b \in 1..3 : Abs(r[b] - s[b]) <= tol
MeansKept == \A v \in 1..3 : Abs(R[v][1] + R[v][2] + R[v][3]) <= 6
LinearKept == lin => \A v \in 1..3 : Same(R[v], Was(v), 12)
SmoothKept == Smooth(x) => \A v \in 1..3 : Same(R[v], Was(v), 8)
DryKept == ~Applies(x) => \A v \in 1..3 : R[v] = Was(v)
(* before balancing, no characteristic exceeds what the neighbours allow, nor points the other way *)
Bounded == Applies(x) => \A b \in 1..3 : LET l == Char(x, b, Lim(x, b)) a == Allowed(x, b) w == Wanted(x, b) IN
    \A k \in 1..3 : /\ Abs(l[k]) <= Max(x.thr[b], (x.nu2 * Abs(a[k])) \div 2) + 6
                    /\ Abs(l[k]) <= Abs(w[k]) + 6
                    /\ (Abs(w[k]) > x.thr[b] /\ a[k] * w[k] <= 0 => Abs(l[k]) <= 6)
(* where nothing varies around, nothing may vary inside *)
FlatAround == (Applies(x) /\ x.thr[1] = 0 /\ \A b \in 1..3 : x.nb[b] = <<0, 0, 0>>) => \A v \in 1..3 : Same(R[v], <<0, 0, 0>>, 4)
Rot(f) == <<f[2], f[3], f[1]>>
Turned == LET y == [x EXCEPT !.m = Rot(@), !.d = Rot(@), !.n = Rot(@), !.t = Rot(@), !.nb = Rot(@), !.thr = Rot(@), !.nwet = Rot(@)]
          IN \A v \in 1..3 : Res(y)[v] = Rot(R[v])
=============================================================================
