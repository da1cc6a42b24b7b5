------------------------------- MODULE Levee --------------------------------
(* Exchange of water over a levee (weir) at one point. Integer units: heads h1, h2 are the levels above the crest on the two
   sides, T the tolerance above the crest, cs / cp the sub- and supercritical coefficients, gravity 1.
   A discharge is represented by its direction and its square:  [d |-> 1 (side 1 to 2), -1, 0,  lo, hi |-> bounds of q*q].
   e is the uncertainty of heads and coefficients in units (0: exact). *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Pos(x) == Max(x, 0)
Cube23(h) == IF h % 3 = 0 THEN (2 * (h \div 3)) * (2 * (h \div 3)) * (2 * (h \div 3)) ELSE (8 * h * h * h) \div 27
Blocked(h1, h2, w1, w2, T) == \/ h1 <= T /\ h2 <= T
                              \/ Abs(h1 - h2) <= T
                              \/ IF h1 > h2 THEN ~w1 ELSE ~w2
Sub2(hi, lo, c, e) == (c + e) * (c + e) * Pos(lo + e) * Pos(lo + e) * 2 * Pos(hi - lo + 2 * e)
Sup2(hi, c, e) == (c + e) * (c + e) * Cube23(Pos(hi + e))
Subcritical(hi, lo) == 3 * lo > 2 * hi
Sq(hi, lo, cs, cp, e) == IF Subcritical(hi, lo) THEN Sub2(hi, lo, cs, e) ELSE Sup2(hi, cp, e)
Discharge(h1, h2, w1, w2, cs, cp, T, e) ==
    IF Blocked(h1, h2, w1, w2, T) THEN [d |-> 0, lo |-> 0, hi |-> 0]
    ELSE LET hi == Max(h1, h2)  lo == h1 + h2 - hi IN
         [d |-> IF h1 > h2 THEN 1 ELSE -1, lo |-> Sq(hi, lo, cs, cp, -e), hi |-> Sq(hi, lo, cs, cp, e)]
(* cases too close to a change of rule to be told apart with uncertainty e *)
Unsure(h1, h2, T, e) == e > 0 /\ LET hi == Max(h1, h2)  lo == h1 + h2 - hi IN
    \/ Abs(hi - T) <= e \/ Abs(hi - lo - T) <= 2 * e \/ Abs(3 * lo - 2 * hi) <= 5 * e
(* water given up by side 1 (f1) and side 2 (f2) *)
Obeys(f1, f2, h1, h2, w1, w2, cs, cp, T, e, tol) ==
    LET D == Discharge(h1, h2, w1, w2, cs, cp, T, e)
        a == Abs(f1)
    IN /\ Abs(f1 + f2) <= 2
       /\ D.d = 0 => a <= 1
       /\ D.d # 0 => /\ f1 * D.d > 0 \/ (a = 0 /\ D.lo <= (1 + tol) * (1 + tol))
                     /\ Pos(a - tol - a \div 500) * Pos(a - tol - a \div 500) <= D.hi
                     /\ D.lo <= (a + tol + a \div 500) * (a + tol + a \div 500)
=============================================================================
