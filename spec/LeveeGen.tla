------------------------------ MODULE LeveeGen ------------------------------
(* Heads (1/300), flags and coefficients (1/10) to be laid out at levees of real meshes *)
EXTENDS Levee, TLC, Json, IOUtils, SequencesExt
CONSTANT Big
Hs == {-90, 0, 2, 6, 30, 33, 60, 150, 152, 156, 240, 300} \cup (IF Big THEN {-3, 9, 90, 120, 147, 270, 297, 303} ELSE {})
All == {[h1 |-> a, h2 |-> b, w1 |-> u, w2 |-> v, cs |-> k[1], cp |-> k[2]] :
          a \in Hs, b \in Hs, u \in BOOLEAN, v \in BOOLEAN, k \in {<<8, 9>>, <<10, 6>>}}
(* exact ties between rules depend on rounding *)
Tie(x) == 3 * x.h1 = 2 * x.h2 \/ 3 * x.h2 = 2 * x.h1 \/ Abs(x.h1 - x.h2) = 3
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({x \in All : ~Tie(x)}))
=============================================================================
