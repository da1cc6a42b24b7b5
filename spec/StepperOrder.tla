---------------------------- MODULE StepperOrder ----------------------------
(* Order conditions on the values the real UpdateState produced.
   ORD lines: s, o, h: stages, order, step length (1 or 2);  tree: one value per tree, in units of 1e-9,
   as [t |-> tree, v |-> value];  f: values of int_0^h t^k dt, k = 0..3, computed with the stepper's own stage times *)
EXTENDS Stepper, Json, IOUtils, TLC
Ord == ndJsonDeserialize(IOEnv.ORD)
Steps == ndJsonDeserialize(IOEnv.NST)     \* [T, a, b, n]: run time, dt = a/b, steps made by a whole run
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLES i
OInit == i \in 1..(Len(Ord) + Len(Steps)) /\ kind = "" /\ c = 0 /\ d = 0 /\ pc = 0
OSpec == OInit /\ [][UNCHANGED <<i, vars>>]_<<i, vars>>
Tol == 5
OrderHolds == i <= Len(Ord) =>
    LET x == Ord[i] IN
    /\ \A t \in Trees : Size(t) <= x.o =>
         \E j \in 1..Len(x.tree) : x.tree[j].t = t
    /\ \A j \in 1..Len(x.tree) : Size(x.tree[j].t) <= x.o => Abs(x.tree[j].v - Expect(x.tree[j].t, x.h)) <= Tol
    /\ \A k \in 1..x.o : Abs(x.f[k] - Expect([q \in 1..(k-1) |-> Leaf], x.h)) <= Tol
StepsCover == i > Len(Ord) =>
    LET x == Steps[i - Len(Ord)] IN x.n = NSteps(x.T, x.a, x.b)
=============================================================================
