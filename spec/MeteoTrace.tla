----------------------------- MODULE MeteoTrace -----------------------------
(* Recorded forcing of real runs (TABM): snap[k + 1]: snapshot of step k as node |-> three values (empty where there is none);
   rows: time of the stage in U parts of a step, values in 1/V, held by each node of each element. *)
EXTENDS Meteo, TLC, Json, IOUtils
CONSTANTS U, V, Tol
Tab == ndJsonDeserialize(IOEnv.TABM)
VARIABLES r, l
vars == <<r, l>>
X == Tab[r]
Have == {X.have[i] : i \in DOMAIN X.have}
Init == r \in DOMAIN Tab /\ l = 1
Next == l < Len(X.rows) /\ l' = l + 1 /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN 0 - x ELSE x
At(k, n) == X.snap[ToString(k)][n]
Good(t, lo, v) == /\ lo \in Have /\ lo + X.f \in Have
                  /\ lo * U <= t + 1 /\ t - 1 <= (lo + X.f) * U
                  /\ \A i \in 1..3 : Abs(v[i + 1] - ((V * (Mix(At(lo, v[1])[i], At(lo + X.f, v[1])[i], t, lo, X.f, U) \div X.f)) \div U)) <= Tol
Row == X.rows[l]
Los(t) == {Window((t + 1) \div U, X.f), Window((t - 1) \div U, X.f)} \cap Nat
Forced == l \in DOMAIN X.rows => \A e \in DOMAIN Row.el : \A n \in 1..3 : \E lo \in Los(Row.t) : Good(Row.t, lo, Row.el[e].v[n])
(* the elements are there, with their own nodes *)
Mine == l \in DOMAIN X.rows => {Row.el[e].id : e \in DOMAIN Row.el} = {X.part[i].id : i \in DOMAIN X.part}
Nodes == l \in DOMAIN X.rows => \A e \in DOMAIN Row.el : \E i \in DOMAIN X.part : /\ X.part[i].id = Row.el[e].id
                                                             /\ \A n \in 1..3 : Row.el[e].v[n][1] = X.part[i].n[n]
(* a run ends when, and only when, its snapshots do, and says so *)
K == Reach(X.n, X.f, Have)
Ended == IF X.lone # "" THEN X.rc = 1 /\ X.rows = <<>> ELSE IF K = X.n THEN X.rc = 0 ELSE X.rc = 1
(* every step begun is seen with its forcing *)
Stages == \A k \in 0..((IF X.lone # "" THEN 0 ELSE K) - 1) : \E i \in DOMAIN X.rows : Abs(X.rows[i].t - k * U) <= 1
Halves == X.split => \A k \in 0..((IF X.lone # "" THEN 0 ELSE K) - 1) : \E i \in DOMAIN X.rows : Abs(X.rows[i].t - k * U - U \div 2) <= 1
Within == l \in DOMAIN X.rows => Row.t <= K * U + 1
=============================================================================
