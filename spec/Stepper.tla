------------------------------ MODULE Stepper ------------------------------
(* Time stepping of the program: which (stages, order) pairs are offered, how
   the stage / step / timestamp counters and the clock advance for the
   explicit, the implicit and the second order split (Strang) stepper, and
   which values an order-p Runge-Kutta method must produce on the rooted-tree
   test equations (B-series order conditions).
   Times are kept in half steps (dt/2) so that the split stepper, whose first
   operator advances by dt/2, stays in the integers. *)
EXTENDS Integers, Sequences, FiniteSets

ExplicitPairs == {<<1,1>>, <<2,2>>, <<3,3>>} \cup {<<s,3>> : s \in 4..8} \cup {<<s,4>> : s \in 5..8}
ImplicitPairs == {<<1,1>>, <<1,2>>, <<2,2>>}          \* <<stages, order>>
Offered(kind, s, o) == <<s,o>> \in (IF kind = "implicit" THEN ImplicitPairs ELSE ExplicitPairs)
Stages(kind, s) == IF kind = "implicit" THEN 1 ELSE s
ThetaPercent(o) == IF o = 1 THEN 0 ELSE 50            \* weight of the old time level

(* A clock: n stages per step, each step advances by `half` half steps. *)
Clock(n, half) == [n |-> n, half |-> half, stage |-> 0, step |-> 0, ts |-> 0]
Tick(c) == [c EXCEPT !.stage = (c.stage + 1) % c.n,
                     !.step  = IF c.stage + 1 = c.n THEN c.step + 1 ELSE c.step,
                     !.ts    = c.ts + 1]
StepTime(c) == c.step * c.half                        \* in half steps

(* number of steps of a run of T seconds with dt = a/b seconds: smallest k with k*dt >= T *)
NSteps(T, a, b) == CHOOSE k \in (T*b) \div a .. (T*b) \div a + 1 : k*a >= T*b /\ (k = 0 \/ (k-1)*a < T*b)

(* ------------------------------------------------------------ order theory *)
(* Rooted trees with at most four nodes as sequences of subtrees; <<>> is the leaf. *)
RECURSIVE Size(_), SumSize(_, _), Gamma(_), ProdGamma(_, _)
SumSize(t, i) == IF i = 0 THEN 0 ELSE Size(t[i]) + SumSize(t, i-1)
Size(t) == 1 + SumSize(t, Len(t))
ProdGamma(t, i) == IF i = 0 THEN 1 ELSE Gamma(t[i]) * ProdGamma(t, i-1)
Gamma(t) == Size(t) * ProdGamma(t, Len(t))            \* density of the tree
Leaf == <<>>
T1 == {Leaf}
T2 == {<<t>> : t \in T1}
T3 == {<<t>> : t \in T2} \cup {<<Leaf, Leaf>>}
T4 == {<<t>> : t \in T3} \cup {<<Leaf, t>> : t \in T2} \cup {<<Leaf, Leaf, Leaf>>}
Trees == T1 \cup T2 \cup T3 \cup T4
ASSUME Cardinality(Trees) = 8 /\ \A t \in T4 : Size(t) = 4
(* y_t' = product of y_subtree, y(0)=0 has the exact solution h^|t| / Gamma(t). *)
Unit == 1000000000
Expect(t, h) == (h * (IF Size(t) > 1 THEN h ELSE 1) * (IF Size(t) > 2 THEN h ELSE 1) * (IF Size(t) > 3 THEN h ELSE 1)
                 * Unit) \div Gamma(t)

(* ------------------------------------------------------------------- model *)
CONSTANTS MaxSteps
VARIABLES kind, c, d, pc   \* c: main clock (first operator when split); d: second operator's clock; pc: ticks made in this step
vars == <<kind, c, d, pc>>

Init == \E k \in {"explicit", "implicit", "strang"}, p \in ExplicitPairs \cup ImplicitPairs :
          /\ Offered(k, p[1], p[2])
          /\ kind = k
          /\ c = Clock(Stages(k, p[1]), IF k = "strang" THEN 1 ELSE 2)
          /\ d = Clock(Stages(k, p[1]), 2)
          /\ pc = 0
n == c.n
TicksPerStep == IF kind = "strang" THEN 3 * n ELSE n
Next == /\ (IF kind = "strang" THEN d.step ELSE c.step) < MaxSteps
        /\ pc' = (pc + 1) % TicksPerStep
        /\ IF kind = "strang" /\ pc \in n .. 2*n-1
             THEN d' = Tick(d) /\ UNCHANGED c
             ELSE c' = Tick(c) /\ (IF kind = "strang" THEN UNCHANGED d ELSE d' = Tick(d))
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

CountersAgree == c.ts = c.step * c.n + c.stage /\ d.ts = d.step * d.n + d.stage /\ c.stage < c.n /\ d.stage < d.n
(* the two operators of the split scheme agree on the time at every step boundary, and the second
   one is applied exactly in the middle: half a step of the first before and after it *)
SplitInStep == (kind = "strang" /\ pc = 0) => StepTime(c) = StepTime(d)
SplitSymmetric == (kind = "strang" /\ pc \in n .. 2*n-1) => StepTime(c) = 2*d.step + 1
(* the clock never runs backwards *)
Monotone == [][StepTime(c') >= StepTime(c) /\ c'.ts >= c.ts]_vars
=============================================================================
