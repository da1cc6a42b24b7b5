------------------------------ MODULE Exchange ------------------------------
(* The exchange protocol of a distributed run over an adversarial message layer.
   Submeshes live on ranks and are advanced by threads; every thread runs the stage program below over its submeshes.
   A started send is copied into the matching receive at any moment until its completion is waited for, and completes only
   then (no buffering), so a buffer rewritten too early or read too early shows.  Sends and receives between two ranks
   match in order per tag.  Kinds: 1 = face states, 2 = element means (only with limiting). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS,          \* submeshes 1..NS
          Rank,        \* submesh -> rank
          Thread,      \* submesh -> thread (unique over all ranks)
          Edges,       \* set of unordered pairs of neighbouring submeshes
          Limit,       \* TRUE: second exchange per stage
          K,           \* stages
          BadTag,      \* TRUE: symmetric tags (a defect to demonstrate)
          EarlyWait    \* TRUE: send completion is not awaited (a defect to demonstrate)
Subs == 1..NS
Threads == {Thread[s] : s \in Subs}
RankOf(th) == Rank[CHOOSE s \in Subs : Thread[s] = th]
Nb(s) == {t \in Subs : {s, t} \in Edges}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Mine(th) == Sorted({s \in Subs : Thread[s] = th})
\* local number of a submesh on its rank, and the tag of a message
Loc(s) == Cardinality({t \in Subs : Rank[t] = Rank[s] /\ t < s})
Tag(s, t) == LET a == Loc(s) b == Loc(t)
             IN IF BadTag THEN a + b
                ELSE IF a < b THEN b * b + a ELSE a * a + a + b
Chan(s, t) == <<Rank[s], Rank[t], Tag(s, t)>>

Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]
RECURSIVE Flat(_)
Flat(qs) == IF qs = << >> THEN << >> ELSE Head(qs) \o Flat(Tail(qs))
ForMine(th, F(_)) == Flat(Map(Mine(th), F))
Round(th, kind) ==
    LET go(s) == <<<<"post", s, kind>>, <<"send", s, kind>>>>
        rd(s) == <<<<"waitr", s, kind>>, <<"read", s, kind>>>>
    IN ForMine(th, go) \o ForMine(th, rd)
WaitS(th, kind) == LET w(s) == <<<<"waits", s, kind>>>> IN IF EarlyWait THEN << >> ELSE ForMine(th, w)
Stage(th) == Round(th, 1) \o <<<<"bar", 0, 0>>>> \o (IF Limit THEN Round(th, 2) \o WaitS(th, 2) ELSE << >>) \o WaitS(th, 1)
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN << >> ELSE q \o Times(q, n - 1)
Prog == [th \in Threads |-> Times(Stage(th), K)]

VARIABLES pos,     \* thread -> next instruction
          stg,     \* thread -> current stage (counted at barriers)
          sbuf,    \* <<s, t, kind>> -> stage whose data the send buffer holds
          rbuf,    \* <<s, t, kind>> -> <<sender, stage>> in the receive buffer of s for t; <<0, 0>>: nothing valid
          sq, rq,  \* channel -> started sends / posted receives not matched yet, in order: <<s, t, kind>>
          act,     \* active requests: <<"s"|"r", s, t, kind>>
          bad      \* set of complaints
vars == <<pos, stg, sbuf, rbuf, sq, rq, act, bad>>
Kinds == IF Limit THEN {1, 2} ELSE {1}
Keys == {<<s, t, k>> \in Subs \X Subs \X Kinds : {s, t} \in Edges}
Chans == {Chan(k[1], k[2]) : k \in Keys}
Init == /\ pos = [th \in Threads |-> 1] /\ stg = [th \in Threads |-> 1]
        /\ sbuf = [k \in Keys |-> 0] /\ rbuf = [k \in Keys |-> <<0, 0>>]
        /\ sq = [c \in Chans |-> << >>] /\ rq = [c \in Chans |-> << >>] /\ act = {} /\ bad = {}
Step(th) == pos' = [pos EXCEPT ![th] = @ + 1]
\* the stage number of the data a submesh sends or reads: kind 2 is exchanged after the stage is completed
ExStage(th) == stg[th]
OrderedNb(s) == Sorted(Nb(s))

Post(th, s, k) ==
    /\ Step(th)
    /\ LET ts == OrderedNb(s)
       IN /\ rq' = [c \in Chans |-> LET mineIn(t) == IF Chan(t, s) = c THEN <<<<s, t, k>>>> ELSE << >> IN rq[c] \o Flat(Map(ts, mineIn))]
          /\ rbuf' = [x \in Keys |-> IF x[1] = s /\ x[3] = k THEN <<0, 0>> ELSE rbuf[x]]
          /\ act' = act \cup {<<"r", s, t, k>> : t \in Nb(s)}
          /\ bad' = bad \cup (IF \E t \in Nb(s) : <<"r", s, t, k>> \in act THEN {"receive started twice"} ELSE {})
    /\ UNCHANGED <<stg, sbuf, sq>>
SendOp(th, s, k) ==
    /\ Step(th)
    /\ LET ts == OrderedNb(s)
       IN /\ sbuf' = [x \in Keys |-> IF x[1] = s /\ x[3] = k THEN ExStage(th) ELSE sbuf[x]]
          /\ sq' = [c \in Chans |-> LET mineOut(t) == IF Chan(s, t) = c THEN <<<<s, t, k>>>> ELSE << >> IN sq[c] \o Flat(Map(ts, mineOut))]
          /\ act' = act \cup {<<"s", s, t, k>> : t \in Nb(s)}
          /\ bad' = bad \cup (IF \E t \in Nb(s) : <<"s", s, t, k>> \in act THEN {"send buffer rewritten"} ELSE {})
    /\ UNCHANGED <<stg, rbuf, rq>>
\* the message layer
Deliver(c) ==
    /\ sq[c] # << >> /\ rq[c] # << >>
    /\ LET s == Head(sq[c]) r == Head(rq[c])
       IN /\ rbuf' = [rbuf EXCEPT ![r] = <<s[1], sbuf[s]>>]
          /\ act' = act \ {<<"s", s[1], s[2], s[3]>>, <<"r", r[1], r[2], r[3]>>}
          /\ bad' = bad \cup (IF s[3] # r[3] \/ s[1] # r[2] \/ s[2] # r[1] THEN {"message matched with the wrong receive"} ELSE {})
    /\ sq' = [sq EXCEPT ![c] = Tail(@)] /\ rq' = [rq EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<pos, stg, sbuf>>
WaitR(th, s, k) == /\ \A t \in Nb(s) : <<"r", s, t, k>> \notin act
                   /\ Step(th) /\ UNCHANGED <<stg, sbuf, rbuf, sq, rq, act, bad>>
Read(th, s, k) == /\ Step(th)
                  /\ bad' = bad \cup (IF \E t \in Nb(s) : rbuf[<<s, t, k>>] # <<t, ExStage(th)>> THEN {"wrong data read"} ELSE {})
                  /\ UNCHANGED <<stg, sbuf, rbuf, sq, rq, act>>
WaitSend(th, s, k) == /\ \A t \in Nb(s) : <<"s", s, t, k>> \notin act
                      /\ Step(th) /\ UNCHANGED <<stg, sbuf, rbuf, sq, rq, act, bad>>
Bar(r) == LET T == {th \in Threads : RankOf(th) = r}
          IN /\ \A th \in T : pos[th] <= Len(Prog[th]) /\ Prog[th][pos[th]][1] = "bar"
             /\ pos' = [th \in Threads |-> IF th \in T THEN pos[th] + 1 ELSE pos[th]]
             /\ stg' = [th \in Threads |-> IF th \in T THEN stg[th] + 1 ELSE stg[th]]
             /\ UNCHANGED <<sbuf, rbuf, sq, rq, act, bad>>
Finished == /\ \A th \in Threads : pos[th] > Len(Prog[th]) /\ UNCHANGED vars
Next == \/ \E c \in Chans : Deliver(c)
        \/ \E r \in {Rank[s] : s \in Subs} : Bar(r)
        \/ \E th \in Threads :
             /\ pos[th] <= Len(Prog[th])
             /\ LET i == Prog[th][pos[th]]
                IN CASE i[1] = "post" -> Post(th, i[2], i[3])
                     [] i[1] = "send" -> SendOp(th, i[2], i[3])
                     [] i[1] = "waitr" -> WaitR(th, i[2], i[3])
                     [] i[1] = "read" -> Read(th, i[2], i[3])
                     [] i[1] = "waits" -> WaitSend(th, i[2], i[3])
                     [] i[1] = "bar" -> FALSE
        \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == bad = {}
Terminates == <>(\A th \in Threads : pos[th] > Len(Prog[th]))
DistinctTags == \A a, b \in Keys : (a[3] = b[3] /\ Chan(a[1], a[2]) = Chan(b[1], b[2])) => (a[1] = b[1] /\ a[2] = b[2])
=============================================================================
