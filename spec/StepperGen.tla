----------------------------- MODULE StepperGen -----------------------------
(* Writes the rooted trees as test equations for the harness. *)
EXTENDS Stepper, Json, IOUtils, TLC, SequencesExt
ASSUME ndJsonSerialize(IOEnv.OUT, [j \in 1..8 |-> [t |-> SetToSeq(Trees)[j]]])
GInit == kind = "" /\ c = 0 /\ d = 0 /\ pc = 0
GSpec == GInit /\ [][UNCHANGED vars]_vars
=============================================================================
