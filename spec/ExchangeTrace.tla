---------------------------- MODULE ExchangeTrace ----------------------------
(* Replays the message log of a real distributed run.  th: sequence of [rank, ev]; an event is [op, ch, kind, n, h] with
   op "ss"/"sw" (send started / awaited), "rs"/"rw" (receive started / awaited), ch the channel <<from, to, tag>> numbered
   by the harness, h a hash of the data.  The events of one rank (all its threads) come in the order they happened; the
   ranks advance in any order the message layer allows: the first that can move moves (the network is confluent), and a
   log that gets stuck is a log of an impossible or deadlocking run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.XRUNS)
VARIABLES r, pos, sent, posted, active, bad
vars == <<r, pos, sent, posted, active, bad>>
X == Runs[r]
TInit == /\ r \in DOMAIN Runs
         /\ pos = [i \in DOMAIN Runs[r].th |-> 1]
         /\ sent = [c \in 1..Runs[r].nch |-> << >>] /\ posted = [c \in 1..Runs[r].nch |-> << >>]
         /\ active = {} /\ bad = {}
Ev(i) == X.th[i].ev[pos[i]]
\* position of the receive a completion refers to: the latest posted of its kind
LastOf(q, k) == CHOOSE x \in DOMAIN q : q[x].kind = k /\ \A y \in DOMAIN q : q[y].kind = k => y <= x
Ready(i) == /\ pos[i] <= Len(X.th[i].ev)
            /\ LET e == Ev(i)
               IN \/ e.op # "rw"
                  \/ /\ \E y \in DOMAIN posted[e.ch] : posted[e.ch][y].kind = e.kind
                     /\ Len(sent[e.ch]) >= LastOf(posted[e.ch], e.kind)
Turn == {i \in DOMAIN X.th : Ready(i)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Do(i) ==
    LET e == Ev(i)
        key == <<IF e.op \in {"ss", "sw"} THEN "s" ELSE "r", e.ch, e.kind>>
    IN /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ r' = r
       /\ CASE e.op = "ss" ->
                 /\ sent' = [sent EXCEPT ![e.ch] = Append(@, e)] /\ UNCHANGED posted
                 /\ active' = active \cup {<<key, e.h>>}
                 /\ bad' = bad \cup (IF \E a \in active : a[1] = key THEN {<<"send started while active", i, pos[i]>>} ELSE {})
            [] e.op = "rs" ->
                 /\ posted' = [posted EXCEPT ![e.ch] = Append(@, e)] /\ UNCHANGED sent
                 /\ active' = active \cup {<<key, 0>>}
                 /\ bad' = bad \cup (IF \E a \in active : a[1] = key THEN {<<"receive started while active", i, pos[i]>>} ELSE {})
            [] e.op = "sw" ->
                 /\ UNCHANGED <<sent, posted>>
                 /\ active' = {a \in active : a[1] # key}
                 /\ bad' = bad \cup (IF <<key, e.h>> \notin active THEN {<<"send buffer changed before completion", i, pos[i]>>} ELSE {})
            [] e.op = "rw" ->
                 LET m == sent[e.ch][LastOf(posted[e.ch], e.kind)]
                 IN /\ UNCHANGED <<sent, posted>>
                    /\ active' = {a \in active : a[1] # key}
                    /\ bad' = bad \cup (IF m.kind # e.kind \/ m.n # e.n THEN {<<"message of another kind or size", i, pos[i]>>} ELSE {})
                                  \cup (IF m.h # e.h THEN {<<"other data than sent", i, pos[i]>>} ELSE {})
AtEnd == \A i \in DOMAIN X.th : pos[i] > Len(X.th[i].ev)
TNext == \/ Turn # {} /\ Do(Least(Turn))
         \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
Right == bad = {}
\* at the end nothing is pending and every channel saw the same exchanges, once each
Complete == AtEnd =>
    /\ active = {}
    /\ \A c \in 1..X.nch : Len(sent[c]) = Len(posted[c])
    /\ \A c, d \in 1..X.nch : [x \in DOMAIN sent[c] |-> sent[c][x].kind] = [x \in DOMAIN sent[d] |-> sent[d][x].kind]
\* one channel per ordered pair of neighbouring submeshes
Channels == \A p \in DOMAIN X.pairs : X.pairs[p].have = X.pairs[p].want
\* nothing was computed from data that had not arrived (receive buffers hold non-numbers until completion)
Unspoilt == X.wrong = 0
\* every step, every submesh belongs to exactly one thread
Owned == \A k \in DOMAIN X.own : \A s \in 0..(X.own[k].n - 1) :
           Cardinality({x \in DOMAIN X.own[k].rng : X.own[k].rng[x][1] <= s /\ s < X.own[k].rng[x][2]}) = 1
=============================================================================
