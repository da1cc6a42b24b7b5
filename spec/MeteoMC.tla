------------------------------ MODULE MeteoMC ------------------------------
(* The reader beside a stepper.  SPLIT: the program takes a step as two half steps with clocks of their own around a third act.
   Snapshot k holds k * k.  Time in quarter steps (U = 4), a stage begins at c quarters of its (half) step.
   BUG: 1 drops the newer snapshot, 2 ignores the stage, 3 reads one step late, 4 counts half steps, 5 reads at every stage of a
   step, 6 takes zeros for a lost snapshot, 7 never lets go of old snapshots, 8 the third act moves the window. *)
EXTENDS Meteo
CONSTANTS SPLIT, F, N, BUG
VARIABLES have, act, stage, mem, shown, refused, reads
vars == <<have, act, stage, mem, shown, refused, reads>>
U == 4
Acts == IF SPLIT THEN 3 * N ELSE N
(* clock of an act: number of its step, length of its step in quarters *)
Num(a) == IF ~SPLIT THEN a ELSE CASE a % 3 = 0 -> 2 * (a \div 3) [] a % 3 = 1 -> a \div 3 [] OTHER -> 2 * (a \div 3) + 1
Len_(a) == IF SPLIT /\ a % 3 # 1 THEN 2 ELSE 4
T(a, s) == Num(a) * Len_(a) + (IF s = 1 THEN Len_(a) ELSE 0)
(* the step of the whole program the act belongs to *)
Step(a) == IF BUG = 4 THEN Num(a) ELSE (Num(a) * Len_(a)) \div U
Init == /\ have \in SUBSET {k \in 0..(N + F) : k % F = 0} /\ act = 0 /\ stage = 0 /\ mem = {} /\ shown = <<>> /\ refused = FALSE /\ reads = <<>>
Snap(k) == IF k \in have THEN k * k ELSE 0
Do ==
    LET st == Step(act)
        due == st % F = (IF BUG = 3 THEN 1 % F ELSE 0) /\ (stage = 0 \/ BUG = 5)
        want == {st, st + F}
        new == IF due THEN want \ mem ELSE {}
        m1 == IF due THEN ((mem \ (IF BUG = 7 THEN {} ELSE IF BUG = 1 THEN {st} ELSE {st - F})) \cup want) ELSE mem
        lo == Window(st, F)
        t == IF BUG = 2 THEN T(act, 0) ELSE T(act, stage)
    IN /\ act < Acts /\ ~refused
       /\ IF new \subseteq have \/ BUG = 6
          THEN /\ mem' = IF BUG = 1 THEN m1 \ {st + F} ELSE m1
               /\ reads' = reads \o (IF new = {} THEN <<>> ELSE <<new>>)
               /\ shown' = IF {lo, lo + F} \subseteq mem' THEN <<Mix(Snap(lo), Snap(lo + F), t, lo, F, U), T(act, stage)>> ELSE <<-1, T(act, stage)>>
               /\ act' = IF stage = 1 THEN act + 1 ELSE act
               /\ stage' = 1 - stage /\ UNCHANGED refused
          ELSE refused' = TRUE /\ UNCHANGED <<mem, reads, shown, act, stage>>
       /\ UNCHANGED have
Next == Do
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* value at any time, from the data alone *)
Ideal(t) == {Mix(k * k, (k + F) * (k + F), t, k, F, U) : k \in {x \in have : x + F \in have /\ x * U <= t /\ t <= (x + F) * U}}
Right == shown # <<>> => shown[1] \in Ideal(shown[2])
Small == Cardinality(mem) <= 2 + (IF SPLIT THEN 0 ELSE 0)
Once == \A i, j \in DOMAIN reads : i # j => reads[i] \cap reads[j] = {}
Only == refused => ~(Needed(N, F) \subseteq have)
AsFar == refused => Step(act) = Reach(N, F, have)
Ends == <>(refused \/ act = Acts)
Through == (act = Acts) => Needed(N, F) \subseteq have
=============================================================================
