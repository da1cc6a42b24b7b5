----------------------------- MODULE WetDryGen ------------------------------
(* All element states on the lattice, with beds and flags, to be replayed into the real kernel *)
EXTENDS WetDry, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depths, Beds
Lat(S) == {12 * x : x \in S}
DepthsQ == Lat({-2, 0, 1, 2, 3, 5, 9})
BedsQ == Lat({0, 1, 4})
DepthsT == Lat({-7, -2, 0, 1, 2, 3, 4, 5, 9, 14})
BedsT == Lat({-3, 0, 1, 4})
All == {[h |-> h, b |-> b, wet |-> w] : h \in [V -> Depths], b \in [V -> Beds], w \in BOOLEAN}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
=============================================================================
