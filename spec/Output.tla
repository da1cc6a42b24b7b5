------------------------------- MODULE Output -------------------------------
(* The output schedule.  Times in quarter seconds.  A run of N steps of length Dt writes format f (Freq[f] > 0: enabled) at
   the start and after each step whose index is a multiple of the smallest number of steps that covers Freq[f]. *)
EXTENDS Integers, FiniteSets
CONSTANTS Dts, Freqs, N
Fmt == 1..3
VARIABLES dt, freq, n, written
vars == <<dt, freq, n, written>>
\* smallest k with k steps covering the interval
Every(f, d) == CHOOSE k \in 1..(f + 1) : k * d >= f /\ (k - 1) * d < f
Schedule(f, d, last) == IF f = 0 THEN {} ELSE {k \in 0..last : k % Every(f, d) = 0}
Init == /\ dt \in Dts /\ freq \in [Fmt -> Freqs] /\ n = 0
        /\ written = {<<f, 0>> : f \in {g \in Fmt : freq[g] > 0}}
Step == /\ n < N /\ n' = n + 1
        /\ written' = written \cup {<<f, n + 1>> : f \in {g \in Fmt : freq[g] > 0 /\ (n + 1) % Every(freq[g], dt) = 0}}
        /\ UNCHANGED <<dt, freq>>
Next == Step
Spec == Init /\ [][Next]_vars
Exact == \A f \in Fmt : {k \in 0..N : <<f, k>> \in written} = Schedule(freq[f], dt, n)
\* two writes are never closer than asked for, and never later than one step more
Spaced == \A a, b \in written : a[1] = b[1] /\ a[2] < b[2] => (b[2] - a[2]) * dt >= freq[a[1]]
Dense == \A f \in Fmt : freq[f] > 0 /\ n * dt >= freq[f] + dt => \E k \in 1..n : <<f, k>> \in written
=============================================================================
