------------------------------ MODULE Limiter -------------------------------
(* The Cockburn-Shu limiter of one element with three neighbours, gravity 1, in whole units.
   Scenario x:
     c          celerity of the mean state (depth c*c)        U, V    mean velocities in quarters
     m[b]       from the barycentre to the midpoint of side b (m[1] + m[2] + m[3] = 0),  d[b] its length
     n[b]       from the barycentre to the barycentre of the neighbour behind side b (a wall: twice m[b])
     t[b]       variation <<level, momentum x, momentum y>> at the midpoint of side b (they sum to zero)
     nb[b]      mean of the neighbour minus own mean (a wall: zero)
     thr[b]     variation that counts as smooth               nu2     twice the factor nu
     wet, nwet  flags of the element and of the neighbours *)
EXTENDS Integers, Sequences
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Next3(b) == (b % 3) + 1
(* components along the waves and the shear of direction m[b] *)
Char(x, b, w) ==
    LET a == x.m[b][1] e == x.m[b][2] d == x.d[b] IN
    << RDiv((4 * x.c * d + a * x.U + e * x.V) * w[1] - 4 * (a * w[2] + e * w[3]), 8 * x.c * d),
       RDiv((x.U * e - x.V * a) * w[1] + 4 * (a * w[3] - e * w[2]), 4 * d),
       RDiv((4 * x.c * d - a * x.U - e * x.V) * w[1] + 4 * (a * w[2] + e * w[3]), 8 * x.c * d) >>
Back(x, b, w) ==
    LET a == x.m[b][1] e == x.m[b][2] d == x.d[b] IN
    << w[1] + w[3],
       RDiv((x.U * d - 4 * x.c * a) * w[1] + (x.U * d + 4 * x.c * a) * w[3] - 4 * e * w[2], 4 * d),
       RDiv((x.V * d - 4 * x.c * e) * w[1] + (x.V * d + 4 * x.c * e) * w[3] + 4 * a * w[2], 4 * d) >>
(* the midpoint as a combination of the barycentres behind its own and the next side *)
Alpha(x, b) ==
    LET k == Next3(b)
        D == Cross(x.n[b], x.n[k]) s == IF D < 0 THEN -1 ELSE 1
        p == s * Cross(x.m[b], x.n[k]) r == s * Cross(x.n[b], x.m[b])
        g == GCD(GCD(Abs(p), Abs(r)), Abs(D))
    IN <<p \div g, r \div g, Abs(D) \div g>>
Wanted(x, b) == Char(x, b, x.t[b])
Allowed(x, b) ==
    LET al == Alpha(x, b) u == Char(x, b, x.nb[b]) v == Char(x, b, x.nb[Next3(b)]) IN
    [k \in 1..3 |-> RDiv(al[1] * u[k] + al[2] * v[k], al[3])]
Minmod(x, b, w, a) ==
    IF Abs(w) <= x.thr[b] THEN w
    ELSE IF w > 0 /\ a > 0 THEN Min(w, (x.nu2 * a) \div 2)
    ELSE IF w < 0 /\ a < 0 THEN -Min(-w, (x.nu2 * (-a)) \div 2)
    ELSE 0
Limited(x, b) == LET w == Wanted(x, b) a == Allowed(x, b) IN Back(x, b, [k \in 1..3 |-> Minmod(x, b, w[k], a[k])])
(* rises and falls of each variable are brought to balance by shrinking the larger of the two *)
Balance(f) ==      \* f: the three sides' values of one variable
    LET P == Max(0, f[1]) + Max(0, f[2]) + Max(0, f[3])
        N == Max(0, -f[1]) + Max(0, -f[2]) + Max(0, -f[3])
    IN [b \in 1..3 |-> IF P > N /\ f[b] > 0 THEN RDiv(f[b] * N, P)
                       ELSE IF N > P /\ f[b] < 0 THEN -RDiv(-f[b] * P, N) ELSE f[b]]
Applies(x) == x.wet /\ \A b \in 1..3 : x.nwet[b]
(* what the three midpoints' variations become: result[variable][side] *)
Result(x) ==
    IF ~Applies(x) THEN [v \in 1..3 |-> [b \in 1..3 |-> x.t[b][v]]]
    ELSE LET l == [b \in 1..3 |-> Limited(x, b)] IN [v \in 1..3 |-> Balance([b \in 1..3 |-> l[b][v]])]
Smooth(x) == \A b \in 1..3 : LET w == Wanted(x, b) IN \A k \in 1..3 : Abs(w[k]) <= x.thr[b]
Clear(x) == \A b \in 1..3 : x.thr[b] = 0 \/ LET w == Wanted(x, b) IN
                \A k \in 1..3 : 10 * Abs(w[k]) <= 9 * x.thr[b] \/ 10 * Abs(w[k]) >= 11 * x.thr[b]
=============================================================================
