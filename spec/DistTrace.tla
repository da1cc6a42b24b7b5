------------------------------ MODULE DistTrace ------------------------------
(* Judges a recorded distributed run against the serial run of the same input.  ids: element numbers; per step the serial
   record is a function of the element number and each submesh contributes its own elements.  Numbers are in units chosen
   per run so that rounding stays below tol. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.DRUNS)
VARIABLES r, l
vars == <<r, l>>
TInit == r \in DOMAIN Runs /\ l = 1
X == Runs[r]
Abs(x) == IF x < 0 THEN -x ELSE x
TNext == l <= X.steps /\ l' = l + 1 /\ r' = r
TSpec == TInit /\ [][TNext]_vars

Parts(k) == X.dist[k]                   \* sequence of [rank, sub, el: sequence of [n, w, q]]
Ids(k) == {<<i, j>> : i \in DOMAIN Parts(k), j \in 1..X.n} 
\* every element exactly once per step
Cover == LET P == Parts(l)
             S == {<<i, j>> \in (DOMAIN P) \X (1..X.n) : j <= Len(P[i].el)}
         IN /\ Cardinality(S) = X.n
            /\ {P[s[1]].el[s[2]].n : s \in S} = 1..X.n
\* submeshes keep their elements over time
Stable == l > 1 => \A i \in DOMAIN Parts(l) : Parts(l)[i].rank = Parts(1)[i].rank /\ Parts(l)[i].sub = Parts(1)[i].sub
\* state and wet flag agree with the serial record
Agrees == LET P == Parts(l)
          IN \A i \in DOMAIN P : \A j \in DOMAIN P[i].el :
               LET e == P[i].el[j]
                   s == X.ser[l][e.n]
               IN /\ e.w = s.w /\ Len(e.q) = Len(s.q)
                  /\ \A k \in DOMAIN e.q : Abs(e.q[k] - s.q[k]) <= X.tol
=============================================================================
