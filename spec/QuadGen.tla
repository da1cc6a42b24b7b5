------------------------------- MODULE QuadGen -------------------------------
(* Requests to the generator: every choice of the four boundary types, met with subdivisions and patterns so that each pair
   (types of two sides, pattern, parity of the subdivisions) occurs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS STEP
VARIABLE z
TY == <<"land", "tide", "flow", "function", "outflow">>
Num(t) == t[1] + 5 * t[2] + 25 * t[3] + 125 * t[4]
Req(t) == LET k == Num(t) IN
    [types |-> <<TY[t[1] + 1], TY[t[2] + 1], TY[t[3] + 1], TY[t[4] + 1]>>,
     m |-> 1 + ((k * 7 + t[1] + 2 * t[2]) % 6), n |-> 1 + ((k * 11 + t[3] + 3 * t[4] + t[1]) % 6), pat |-> (k + t[2]) % 3]
All == {Req(t) : t \in {x \in (0..4) \X (0..4) \X (0..4) \X (0..4) : (Num(x) + x[1] + x[2] + x[3] + x[4]) % STEP = 0}}
Seq0 == LET RECURSIVE F(_)
            F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o F(S \ {x})
        IN F(All)
ASSUME ndJsonSerialize(IOEnv.OUT, Seq0)
Init == z = 0
Next == UNCHANGED z
Spec == Init /\ [][Next]_z
=============================================================================
