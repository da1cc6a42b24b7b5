----------------------------- MODULE FaultTrace -----------------------------
(* Endings of real runs.  hit: step in which a non-number came up (0: never), at: submeshes it came up in, last: last step
   each submesh completed, rc: exit status, nan: non-numbers in the states recorded after completed steps; sure: the
   late: 1 when several threads of a rank may call for the abort
   at once (only the first call is immediate); sure: the injected non-number reaches an element's state (a hybridized scheme may drop one in its boundary data). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.FRUNS)
VARIABLE r
Init == r \in DOMAIN Runs
Spec == Init /\ [][UNCHANGED r]_r
X == Runs[r]
Masked == ~X.sure /\ X.rc = 0
Finite == X.nan = 0 \/ (X.late = 1 /\ X.rc # 0)
Fails == X.hit > 0 => X.rc # 0 \/ Masked
Stops == (X.hit > 0 /\ ~Masked) => \A s \in DOMAIN X.last : (s \in {X.at[i] : i \in DOMAIN X.at} => X.last[s] < X.hit + X.late)
Carries == (X.hit = 0 \/ Masked) => /\ X.rc = 0
                        /\ \A s \in DOMAIN X.last : X.last[s] = X.steps
=============================================================================
