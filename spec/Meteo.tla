------------------------------- MODULE Meteo -------------------------------
(* Nodal forcing from snapshots.  Snapshot k holds the values at the beginning of step k and exists for multiples of f steps only;
   between two of them the forcing runs linearly in time.  Time in U parts of a step. *)
EXTENDS Integers, Sequences, FiniteSets
Window(step, f) == (step \div f) * f
(* snapshots a run of n steps looks at *)
Needed(n, f) == UNION {{Window(k, f), Window(k, f) + f} : k \in 0..(n - 1)}
(* how many steps a run can begin with the snapshots at hand *)
Reach(n, f, have) == CHOOSE k \in 0..n : /\ \A j \in 0..(k - 1) : {Window(j, f), Window(j, f) + f} \subseteq have
                                         /\ (k < n => ~({Window(k, f), Window(k, f) + f} \subseteq have))
(* U * f times the value at time t (in parts of a step), from the snapshots around it; a time on a snapshot may be seen from
   either side *)
Mix(a, b, t, lo, f, U) == a * (U * f) + (t - lo * U) * (b - a)
=============================================================================
