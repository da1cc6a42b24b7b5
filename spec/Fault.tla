------------------------------- MODULE Fault -------------------------------
(* A run of several submeshes, advanced stage by stage by ranks that may be ahead of each other as far as the halo
   exchange lets them.  At any moment the state of any submesh may turn into a non-number (environment action Strike),
   which then spreads to the neighbours with the exchanged data.  Every submesh examines its state after each stage; the
   first bad one kills the job.  Coverage is the set of <<submesh, stage>> examined: the design examines all of them. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, Steps, Stages, SkipSub, SkipStage
Subs == 1..NS
Nb(s) == {t \in Subs : t = s + 1 \/ t = s - 1}
VARIABLES done,    \* submesh -> stages completed
          bad,     \* submesh -> stage count at which its state became bad (0: good)
          struck,  \* first strike: <<submesh, stages done>> or <<>>
          status   \* "running", "ok", "failed"
vars == <<done, bad, struck, status>>
Init == done = [s \in Subs |-> 0] /\ bad = [s \in Subs |-> FALSE] /\ struck = << >> /\ status = "running"
Total == Steps * Stages
Examined(s, k) == s # SkipSub /\ ((k - 1) % Stages) + 1 # SkipStage
\* the state turns bad before the next stage, whatever the cause
Strike(s) == /\ status = "running" /\ struck = << >> /\ done[s] < Total
             /\ bad' = [bad EXCEPT ![s] = TRUE] /\ struck' = <<s, done[s]>> /\ UNCHANGED <<done, status>>
\* a stage needs the neighbours to have completed at least as many stages; their badness arrives with their data
Stage(s) == /\ status = "running" /\ done[s] < Total /\ \A t \in Nb(s) : done[t] >= done[s]
            /\ LET b == bad[s] \/ \E t \in Nb(s) : bad[t] /\ done[t] = done[s]
               IN /\ bad' = [bad EXCEPT ![s] = b]
                  /\ done' = [done EXCEPT ![s] = @ + 1]
                  /\ status' = IF b /\ Examined(s, done[s] + 1) THEN "failed" ELSE status
            /\ UNCHANGED struck
Finish == /\ status = "running" /\ \A s \in Subs : done[s] = Total
          /\ status' = "ok" /\ UNCHANGED <<done, bad, struck>>
Over == status # "running" /\ UNCHANGED vars
Next == (\E s \in Subs : Strike(s) \/ Stage(s)) \/ Finish \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the struck submesh never gets past the step in which it was struck
StopsInStep == struck # << >> => (done[struck[1]] \div Stages) * Stages <= (struck[2] \div Stages) * Stages + (Stages - 1)
                                 \/ (status = "failed" /\ done[struck[1]] <= (struck[2] \div Stages + 1) * Stages)
NeverSuccess == status = "ok" => struck = << >>
NoFalseAlarm == status = "failed" => struck # << >>
Ends == <>(status # "running")
=============================================================================
