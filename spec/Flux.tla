-------------------------------- MODULE Flux --------------------------------
(* Numerical flux between two elements. Levels and momenta on a lattice: c (wave speed) in 1/10, depth h = c*c and bed b and
   level z = h - b in 1/100, velocity u, v in 1/10, gravity 1. A normal is <<nx, ny, d>>, the unit vector (nx, ny)/d.
   Fluxes are <<mass, x-momentum, y-momentum>>, scaled by 4d, in 1/10000; both sides use their own outward normal. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Neg(n) == <<-n[1], -n[2], n[3]>>
Minus(f) == <<-f[1], -f[2], -f[3]>>
H(s) == s.c * s.c
Z(s) == H(s) - s.b
QX(s) == H(s) * s.u
QY(s) == H(s) * s.v
W(s, n) == s.u * n[1] + s.v * n[2]
Turn(n) == <<-n[2], n[1], n[3]>>
TurnS(s) == [s EXCEPT !.u = -s.v, !.v = s.u]
TurnF(f) == <<f[1], -f[3], f[2]>>
------------------------------------------------------------------------------
(* the physical flux through a face, gravity g *)
Phys(s, n, g) == <<40 * H(s) * W(s, n),
                   4 * QX(s) * W(s, n) + 2 * g * n[1] * (Z(s) * Z(s) + 2 * Z(s) * s.b),
                   4 * QY(s) * W(s, n) + 2 * g * n[2] * (Z(s) * Z(s) + 2 * Z(s) * s.b)>>
(* an admissible numerical flux: local Lax-Friedrichs *)
LLF(s, t, n, g) ==
    LET A == Phys(s, n, g)  B == Phys(t, n, g)
        lam == Max(Abs(W(s, n)) + g * s.c * n[3], Abs(W(t, n)) + g * t.c * n[3])
    IN <<(A[1] + B[1]) \div 2 + 20 * lam * (Z(s) - Z(t)),
         (A[2] + B[2]) \div 2 + 2 * lam * (QX(s) - QX(t)),
         (A[3] + B[3]) \div 2 + 2 * lam * (QY(s) - QY(t))>>
Wall(s, n) == <<0, 2 * n[1] * (Z(s) * Z(s) + 2 * Z(s) * s.b), 2 * n[2] * (Z(s) * Z(s) + 2 * Z(s) * s.b)>>
(* what each side is given, with the rule for dry elements *)
Given(s, t, n) ==
    LET f == LLF(s, t, n, 1) IN
    IF ~s.wet /\ ~t.wet THEN [i |-> <<0, 0, 0>>, e |-> <<0, 0, 0>>]
    ELSE IF f[1] > 0 /\ ~s.wet THEN [i |-> <<0, 0, 0>>, e |-> Wall(t, Neg(n))]
    ELSE IF f[1] < 0 /\ ~t.wet THEN [i |-> Wall(s, n), e |-> <<0, 0, 0>>]
    ELSE IF f[1] > 0 /\ ~t.wet THEN [i |-> f, e |-> [LLF(t, s, Neg(n), 0) EXCEPT ![1] = -f[1]]]
    ELSE IF f[1] < 0 /\ ~s.wet THEN [i |-> [LLF(s, t, n, 0) EXCEPT ![1] = f[1]], e |-> Minus(f)]
    ELSE [i |-> f, e |-> Minus(f)]
------------------------------------------------------------------------------
(* the property of fluxes f = [i, e] given to the two sides, up to tol *)
Is0(x, tol) == Abs(x) <= tol
Close(f, g, tol) == \A k \in 1..3 : Is0(f[k] - g[k], tol)
SameWater(s, t) == s.c = t.c /\ s.b = t.b /\ s.u = t.u /\ s.v = t.v
Consistent(s, t, n, f, tol) == s.wet /\ t.wet /\ SameWater(s, t) => Close(f.i, Phys(s, n, 1), tol)
Conserves(sw, tw, f, tol) == /\ Is0(f.i[1] + f.e[1], tol)
                             /\ sw /\ tw => Close(f.i, Minus(f.e), tol)
DryGives(sw, tw, f, tol) == /\ ~sw => f.i[1] <= tol
                            /\ ~tw => f.e[1] <= tol
                            /\ ~sw /\ ~tw => Close(f.i, <<0, 0, 0>>, 0) /\ Close(f.e, <<0, 0, 0>>, 0)
=============================================================================
