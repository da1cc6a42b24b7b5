----------------------------- MODULE RestTrace -----------------------------
(* Runs of the real program started from still lakes.  RRUNS lines:
     n elements, steps, tz, tq tolerances; rec: per step per element
     [z (deviation of the surface from its own level at every vertex, worst), q (worst momentum), w (wet)] *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
RRuns == ndJsonDeserialize(IOEnv.RRUNS)
VARIABLES r, l, still
RRun == RRuns[r]
Abs(x) == IF x < 0 THEN -x ELSE x
AtRest(s) == /\ Len(s) = RRun.n
             /\ \A k \in 1..Len(s) : Abs(s[k].z) <= RRun.tz /\ Abs(s[k].q) <= RRun.tq /\ s[k].w = 1
TInit == r \in 1..Len(RRuns) /\ l = 1 /\ still = AtRest(RRuns[r].rec[1])
TNext == /\ l < Len(RRun.rec) /\ l' = l + 1 /\ still' = AtRest(RRun.rec[l+1]) /\ UNCHANGED r
Done == l = Len(RRun.rec) /\ l = RRun.steps + 1 /\ UNCHANGED <<r, l, still>>
TSpec == TInit /\ [][TNext \/ Done]_<<r, l, still>>
Rest == still
=============================================================================
