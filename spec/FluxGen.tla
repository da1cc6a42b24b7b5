------------------------------- MODULE FluxGen ------------------------------
(* Every pair of lattice states, to be laid out as pairs of elements of a real mesh *)
EXTENDS Flux, TLC, Json, IOUtils, SequencesExt
CONSTANT Big
S(b) == [c : {10, 20, 30} \cup (IF Big THEN {5, 15} ELSE {}), b : {b}, u : {-10, 0, 20}, v : {0, 10} \cup (IF Big THEN {-20} ELSE {}), wet : {TRUE}]
        \cup [c : {1, 10, 20}, b : {b}, u : {0}, v : {0}, wet : {FALSE}]
All == UNION {{[s |-> x, t |-> y] : x \in S(b), y \in S(b)} : b \in {100, -50}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
=============================================================================
