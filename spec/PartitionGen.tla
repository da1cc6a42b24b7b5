----------------------------- MODULE PartitionGen -----------------------------
(* Enumerates every way to deal N elements to K submeshes and those to R ranks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, K, R
Deals == [1..N -> 0..(K - 1)]
Places == [1..K -> 0..(R - 1)]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[a |-> d, b |-> p] : d \in Deals, p \in Places}))
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
