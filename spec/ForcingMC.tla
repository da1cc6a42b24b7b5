----------------------------- MODULE ForcingMC ------------------------------
(* The clock of a forced run with one boundary edge; what an implementation imposes (or a defective one) against Value. *)
EXTENDS Forcing, TLC, FiniteSets
CONSTANTS Defect, Scheme
Nodes == {1, 2}
Cons == [rate : {0, 2, 15, 30}, fact : {1, 2}, eq : {0, 10}, amp : [Nodes -> {10, 25}], ph : [Nodes -> {0, 15, 40}]]
VARIABLES c, k, i, imp
vars == <<c, k, i, imp>>
T == 2 * k + Sample(Scheme)[i][1]
Impl(cc, n, t) ==
    CASE Defect = "none" -> Value(cc, n, t)
      [] Defect = "phase" -> SumSeq([j \in DOMAIN cc |-> cc[j].fact * cc[j].amp[n] * Cos(cc[j].rate * t + cc[j].eq + cc[j].ph[n])])
      [] Defect = "factor" -> SumSeq([j \in DOMAIN cc |-> cc[1].fact * cc[j].amp[n] * Cos(cc[j].rate * t + cc[j].eq - cc[j].ph[n])])
      [] Defect = "node" -> Value(cc, 3 - n, t)
      [] Defect = "clock" -> Value(cc, n, 2 * k)
      [] Defect = "last" -> Value(<<cc[Len(cc)]>>, n, t)
Init == /\ c \in {<<x, y>> : x \in Cons, y \in [rate : {15}, fact : {3}, eq : {0}, amp : [Nodes -> {10}], ph : [Nodes -> {7}]]}
        /\ k = 0 /\ i = 1 /\ imp = [n \in Nodes |-> Impl(c, n, T)]
Next == /\ k < 3
        /\ IF i < Len(Sample(Scheme)) THEN i' = i + 1 /\ k' = k ELSE i' = 1 /\ k' = k + 1
        /\ imp' = [n \in Nodes |-> Impl(c, n, T')] /\ c' = c
Spec == Init /\ [][Next]_vars
Imposed == \A n \in Nodes : imp[n] = Value(c, n, T)
Bounded == \A n \in Nodes : imp[n] <= 1000000 * SumSeq([j \in DOMAIN c |-> c[j].fact * c[j].amp[n]])
(* what the stages of one step see repeats with the period, and equal shifts of argument and phase cancel *)
Periodic == \A n \in Nodes : (\A j \in DOMAIN c : c[j].rate \in {0, 15, 30}) => Value(c, n, T + 6) = Value(c, n, T)
Shift == \A n \in Nodes : Value([j \in DOMAIN c |-> [c[j] EXCEPT !.eq = @ + 7, !.ph = [m \in Nodes |-> c[j].ph[m] + 7]]], n, T) = Value(c, n, T)
=============================================================================
