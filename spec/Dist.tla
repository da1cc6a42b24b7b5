-------------------------------- MODULE Dist --------------------------------
(* A stage-by-stage computation on a ring of elements, serial and cut into submeshes that exchange their border values.
   Values are small integers mixed by a rule in which every neighbour and the stage matter, so reading anything but the
   neighbour's value of the same stage shows.  Submeshes run asynchronously; a submesh may start the next stage while its
   neighbours are still in this one.  Every completed stage of every element has to be the serial one. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, S, K,          \* elements, submeshes, stages
          Owner             \* element -> submesh
VARIABLES val,   \* element -> sequence of values, one per completed stage (index 1: initial)
          msg,   \* <<from submesh, to submesh>> -> sequence of messages in flight: [e -> value]
          got,   \* <<to, from>> -> last message received, or <<>>
          pc     \* submesh -> "send" / "wait"
vars == <<val, msg, got, pc>>
M == 17
E == 0..(N - 1)
L(e) == (e + N - 1) % N
R(e) == (e + 1) % N
V0(e) == (5 * e + 3) % M
F(own, l, r, k) == (2 * own + 3 * l + 5 * r + k) % M
RECURSIVE Serial(_, _)
Serial(e, k) == IF k = 0 THEN V0(e) ELSE F(Serial(e, k - 1), Serial(L(e), k - 1), Serial(R(e), k - 1), k)
SerialTab == [e \in E |-> [k \in 0..K |-> Serial(e, k)]]

Subs == 1..S
Of(s) == {e \in E : Owner[e + 1] = s}
Border(s, t) == {e \in Of(s) : L(e) \in Of(t) \/ R(e) \in Of(t)}
Nb(s) == {t \in Subs \ {s} : Border(s, t) # {}}
Done(s) == LET e == CHOOSE x \in Of(s) : TRUE IN Len(val[e]) - 1

Init == /\ val = [e \in E |-> <<V0(e)>>]
        /\ msg = [p \in Subs \X Subs |-> << >>] /\ got = [p \in Subs \X Subs |-> << >>]
        /\ pc = [s \in Subs |-> "send"]
Send(s) == /\ pc[s] = "send" /\ Of(s) # {} /\ Done(s) < K
           /\ pc' = [pc EXCEPT ![s] = "wait"]
           /\ msg' = [p \in Subs \X Subs |-> IF p[1] = s /\ p[2] \in Nb(s)
                        THEN Append(msg[p], [e \in Border(s, p[2]) |-> val[e][Len(val[e])]]) ELSE msg[p]]
           /\ UNCHANGED <<val, got>>
Recv(s, t) == /\ pc[s] = "wait" /\ t \in Nb(s) /\ got[<<s, t>>] = << >> /\ msg[<<t, s>>] # << >>
              /\ got' = [got EXCEPT ![<<s, t>>] = <<Head(msg[<<t, s>>])>>]
              /\ msg' = [msg EXCEPT ![<<t, s>>] = Tail(@)]
              /\ UNCHANGED <<val, pc>>
Compute(s) ==
    /\ pc[s] = "wait" /\ \A t \in Nb(s) : got[<<s, t>>] # << >>
    /\ LET old(e) == val[e][Len(val[e])]
           at(e, f) == IF f \in Of(s) THEN old(f) ELSE (got[<<s, Owner[f + 1]>>][1])[f]
       IN val' = [e \in E |-> IF e \in Of(s) THEN Append(val[e], F(old(e), at(e, L(e)), at(e, R(e)), Len(val[e]))) ELSE val[e]]
    /\ got' = [p \in Subs \X Subs |-> IF p[1] = s THEN << >> ELSE got[p]]
    /\ pc' = [pc EXCEPT ![s] = "send"]
    /\ UNCHANGED msg
Finished == (\A s \in Subs : Of(s) = {} \/ Done(s) = K) /\ UNCHANGED vars
Next == (\E s \in Subs : Send(s) \/ Compute(s) \/ \E t \in Subs : Recv(s, t)) \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameAsSerial == \A e \in E : \A k \in 1..Len(val[e]) : val[e][k] = SerialTab[e][k - 1]
Ahead == \A p \in Subs \X Subs : Len(msg[p]) <= 2
Completes == <>(\A s \in Subs : Of(s) = {} \/ Done(s) = K)
=============================================================================
