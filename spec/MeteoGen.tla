------------------------------ MODULE MeteoGen ------------------------------
(* Runs for the real program: f steps between snapshots, n steps, and the snapshots that are on the disk. *)
EXTENDS Meteo, TLC, Json, IOUtils, SequencesExt
CONSTANTS FMax, NMax
All(f, n) == {k \in 0..(n + 2 * f) : k % f = 0}
One(f, n) == {All(f, n)} \cup {Needed(n, f)} \cup {All(f, n) \ {k} : k \in All(f, n)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION {{[f |-> f, n |-> n, have |-> SetToSortSeq(h, <)] : h \in One(f, n)} : f \in 1..FMax, n \in 1..NMax}))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
