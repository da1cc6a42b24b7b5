------------------------------- MODULE MeshGen -------------------------------
(* Every way of assigning boundary sections to the edges of a small mesh: kinds of section per edge and whether consecutive
   edges of one kind share a section. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
CONSTANTS N, KINDS
K == 1..N
All == [K -> KINDS]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[t |-> [i \in K |-> a[i]], j |-> b] : a \in All, b \in {0, 1}}))
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
==============================================================================
