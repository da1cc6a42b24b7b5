------------------------------- MODULE PolyMC -------------------------------
(* The algebra obeys the laws of calculus: checked for all pairs of Bernstein polynomials up to degree D and some triangles. *)
EXTENDS Poly, TLC
CONSTANTS D, Defect
Unit(n, p) == [i \in 1..Len3(n) |-> IF i = p THEN 1 ELSE 0]
Ps == UNION {{Unit(n, p) : p \in 1..Len3(n)} : n \in 0..D} \cup {<<2, -1, 3>>, <<1, 0, -2, 3, 1, -1>>}
Ts == {<<0, 0, 1, 0, 0, 1>>, <<0, 0, 4, 1, 1, 3>>, <<-3, 2, 5, -1, 0, 7>>, <<2, 2, 1, 3, -4, -6>>}
Ls == {<<a, b, 4 - a - b>> : a \in 0..4, b \in 0..4} \cap {l \in (0..4) \X (0..4) \X (0..4) : l[1] + l[2] + l[3] = 4}
VARIABLES f, g, T
Init == f \in Ps /\ g \in Ps /\ T \in Ts
Next == UNCHANGED <<f, g, T>>
Spec == Init /\ [][Next]_<<f, g, T>>
A == Area2(T)
n == Deg(f)
m == Deg(g)
Dr(h, d, t) == IF Defect = "gradient" THEN [i \in DOMAIN Der(h, d, t) |-> -Der(h, d, t)[i]] ELSE Der(h, d, t)
Ed(h, k) == IF Defect = "edge" THEN Edge(h, (k + 1) % 3) ELSE Edge(h, k)
Ml(a, b) == IF Defect = "product" THEN [i \in DOMAIN Mul(a, b) |-> 2 * Mul(a, b)[i]] ELSE Mul(a, b)
Positive == A > 0
(* int (df/dx) g + f (dg/dx) = boundary integral of f g n : denominators: degree n+m-1 inside, n+m on edges *)
Parts == n + m > 0 => \A d \in 1..2 :
    LET L == IF n = 0 THEN 0 ELSE Integ(Ml(Dr(f, d, T), g))
        R == IF m = 0 THEN 0 ELSE Integ(Ml(f, Dr(g, d, T)))
        dl == IF n = 0 THEN 1 ELSE Binom[n + m - 1][n - 1]
        dr == IF m = 0 THEN 1 ELSE Binom[n + m - 1][n]
        S == MapThenSumSet(LAMBDA k : Normal(T, k, d) * Integ1(Mul1(Ed(f, k), Ed(g, k))), 0..2)
    IN (* L/(dl (n+m)(n+m+1)) + R/(dr (n+m)(n+m+1)) = S/(C(n+m,n)(n+m+1)) *)
       (L * dr + R * dl) * Binom[n + m][n] = S * dl * dr * (n + m)
Commutes == Mul(f, g) = Mul(g, f)
ValuesMultiply == n + m <= 4 => \A l \in Ls : Value(Ml(f, g), l) = MulDen(f, g) * Value(f, l) * Value(g, l)
ElevationIsSame == \A l \in Ls : Value(Elevate(f), l) = (n + 1) * 4 * Value(f, l)
ElevationKeepsIntegral == Integ(Elevate(f)) = Integ(f) * (n + 3)
TraceIsValue == \A k \in 0..2, j \in 0..4 :
    LET l == [i \in 1..3 |-> IF i - 1 = k THEN 0 ELSE IF i - 1 = (k + 1) % 3 THEN 4 - j ELSE j]
        e == Ed(f, k)
    IN Value(f, l) = MapThenSumSet(LAMBDA i : Binom[n][i] * Pow(4 - j, n - i) * Pow(j, i) * e[i + 1], 0..n)
(* the remainder of the best linear approximation is orthogonal to linear functions *)
BestIsOrthogonal == \A i \in 1..3 :
    LET b == BestLinear(f)  q == BestLinearDen(f) IN
    Integ(Mul(b, Lam(i))) * (n + 1) * (n + 2) * (n + 3) = Integ(Mul(f, Lam(i))) * q * 24
LinearIsItsOwnBest == n = 1 => \A i \in 1..3 : BestLinear(f)[i] = BestLinearDen(f) * f[i]
MomentIsIntegral == \A i \in 1..3 : Moment(f, i) = Integ(Mul(f, Lam(i)))
NormalsClose == \A d \in 1..2 : Normal(T, 0, d) + Normal(T, 1, d) + Normal(T, 2, d) = 0
NormalsPointOut == \A k \in 0..2 : Normal(T, k, 1) * (X(T, k + 1) - X(T, k)) + Normal(T, k, 2) * (Y(T, k + 1) - Y(T, k)) = A
GradientsAreDual == \A i \in 0..2, j \in 0..2 :
    Grad(T, i, 1) * (X(T, j) - X(T, i)) + Grad(T, i, 2) * (Y(T, j) - Y(T, i)) = (IF i = j THEN 0 ELSE -A)
=============================================================================
