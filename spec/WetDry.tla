------------------------------- MODULE WetDry -------------------------------
(* Wetting and drying of one triangle holding a linear state, on an integer scale.
   State: nodal depths h, momenta mx, my, flag wet; constants of the element: nodal bed depths b (positive down).
   Ho is the depth up to which a node counts as dry.  Values are multiples of 12, so that means and halves are exact. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Ho
V == 1..3
Sum(f) == f[1] + f[2] + f[3]
DryV(h) == {v \in V : h[v] <= Ho}
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
Hi(a, b) == IF a > b THEN a ELSE b
Const(x) == [v \in V |-> x]
(* ---- the step: water is evened out, thin nodes give their momentum away, the flag follows the level ---- *)
MeanDepth(h) == Hi(Sum(h) \div 3, 0)
(* a sorting of the nodes by depth *)
Orders(h) == {o \in [V -> V] : /\ {o[i] : i \in V} = V /\ h[o[1]] <= h[o[2]] /\ h[o[2]] <= h[o[3]]}
Evened(h, o) == LET a == Ho  m == Hi(Ho, h[o[2]] - (Ho - h[o[1]]) \div 2)
                IN [v \in V |-> IF v = o[1] THEN a ELSE IF v = o[2] THEN m ELSE Sum(h) - a - m]
Handed(h, q) == LET D == DryV(h) N == V \ D
                    give == (IF 1 \in D THEN q[1] ELSE 0) + (IF 2 \in D THEN q[2] ELSE 0) + (IF 3 \in D THEN q[3] ELSE 0)
                IN [v \in V |-> IF v \in D THEN 0 ELSE q[v] + give \div Cardinality(N)]
(* level at a deepest node against the height at which the shallowest bed node is covered by Ho *)
Levels(h, b) == {h[v] - b[v] : v \in {w \in V : \A u \in V : h[u] <= h[w]}}
Lowest(b) == Min2({b[v] : v \in V})
Covers(h, b) == {z > Ho - Lowest(b) : z \in Levels(h, b)}
Ties(h, b) == (Ho - Lowest(b)) \in Levels(h, b)
R(h, x, y, w) == [h |-> h, mx |-> x, my |-> y, wet |-> w]
Settle(h, x, y, b) == {IF f THEN R(h, x, y, TRUE) ELSE R(h, Const(0), Const(0), FALSE) :
                            f \in IF Ties(h, b) THEN {TRUE, FALSE} ELSE Covers(h, b)}
(* all states the step may lead to (several where nodes tie) *)
Step(s, b) == LET D == DryV(s.h) flat == Const(MeanDepth(s.h)) IN
    IF D = {} THEN (IF s.wet THEN {s} ELSE Settle(s.h, s.mx, s.my, b))
    ELSE IF D = V THEN {R(flat, Const(0), Const(0), FALSE)}
    ELSE IF MeanDepth(s.h) <= Ho THEN Settle(flat, Const(0), Const(0), b)
    ELSE UNION {Settle(Evened(s.h, o), Handed(Evened(s.h, o), s.mx), Handed(Evened(s.h, o), s.my), b) : o \in Orders(s.h)}
(* ---- what must hold of any step from s to t ---- *)
Abs(x) == IF x < 0 THEN -x ELSE x
NonNegative(t) == \A v \in V : t.h[v] >= 0
WetIsDeep(t) == t.wet => \A v \in V : t.h[v] >= Ho
Submerged(s) == s.wet /\ DryV(s.h) = {}
Untouched(s, t) == Submerged(s) => t = s
KeepsWater(s, t) == Sum(t.h) = Hi(Sum(s.h), 0)
DryIsStill(t) == ~t.wet => t.mx = Const(0) /\ t.my = Const(0)
ThinIsStill(s, t) == ~Submerged(s) => \A v \in DryV(t.h) : t.mx[v] = 0 /\ t.my[v] = 0
KeepsMomentum(s, t) == t.wet /\ MeanDepth(s.h) > Ho => Sum(t.mx) = Sum(s.mx) /\ Sum(t.my) = Sum(s.my)
AllDryIsDry(s, t) == DryV(s.h) = V => ~t.wet
FlagFollows(s, t, b) == (~Submerged(s) /\ DryV(s.h) # V) =>
    \/ Ties(t.h, b)
    \/ t.wet \in Covers(t.h, b)
Good(s, t, b) == /\ NonNegative(t) /\ WetIsDeep(t) /\ Untouched(s, t) /\ KeepsWater(s, t) /\ DryIsStill(t) /\ ThinIsStill(s, t)
                 /\ KeepsMomentum(s, t) /\ AllDryIsDry(s, t) /\ FlagFollows(s, t, b)
(* ---- initial classification: an element with a thin node is dry, the thin nodes hold Ho ---- *)
Classified(s) == IF DryV(s.h) = {} THEN [s EXCEPT !.wet = TRUE]
                 ELSE R([v \in V |-> Hi(s.h[v], Ho)], Const(0), Const(0), FALSE)
=============================================================================
