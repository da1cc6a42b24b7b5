------------------------------- MODULE Source -------------------------------
(* Momentum sources. Gravity in tenths. A friction case x:
     a, b, e   velocity direction, a*a + b*b = e*e       s   the velocity is (a, b) * s / 100
     rt        cube root of the depth in halves (depth rt^3 / 8)
     law       "chezy" or "manning"                      cf  coefficient (for Manning the lower limit) in 1e-4
     n         the three nodal Manning numbers in 1/1000
     g         gravity in tenths
   Results in units of 1e-7: the rate of change of momentum per unit area. *)
EXTENDS Integers, Sequences
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a < b THEN b ELSE a
(* friction coefficient in 1e-8: g n^2 / h^(1/3), not below the limit *)
Coef(x) == IF x.law = "chezy" THEN x.cf * 10000
           ELSE LET N == x.n[1] + x.n[2] + x.n[3]         \* g/10 (N/3000)^2 / (rt/2)
                IN Max(x.cf * 10000, RDiv(20 * x.g * N * N, 9 * x.rt))
(* coefficient * |velocity| * velocity, opposite to the velocity *)
Speed2(x) == x.e * x.s
Friction(x) == LET k == RDiv(Coef(x) * Speed2(x), 1000) IN << -RDiv(k * x.a * x.s, 100), -RDiv(k * x.b * x.s, 100) >>
(* bed slope, over an element with nodes <<px, py, bed, level>> (bed and level in 1/100): the integral of
   g * level * gradient of the bed depth, in 1e-6 ... both integrals of linear functions *)
Slope(nd, g) ==
    LET Z == nd[1][4] + nd[2][4] + nd[3][4]
        Bx == nd[1][3] * (nd[2][2] - nd[3][2]) + nd[2][3] * (nd[3][2] - nd[1][2]) + nd[3][3] * (nd[1][2] - nd[2][2])
        By == nd[1][3] * (nd[3][1] - nd[2][1]) + nd[2][3] * (nd[1][1] - nd[3][1]) + nd[3][3] * (nd[2][1] - nd[1][1])
    IN << RDiv(g * Z * Bx, 60), RDiv(g * Z * By, 60) >>      \* in 1e-4
=============================================================================
