------------------------------ MODULE Partition ------------------------------
(* Cutting a mesh into submeshes, as a state machine whose order is left open: elements are dealt to submeshes,
   submeshes to ranks, then every face between two submeshes is marked on both sides and appended to the list the two
   submeshes share.  Whatever the order, the result has to satisfy the properties the distributed run builds on.
   The mesh is given as its internal faces (pairs of element numbers). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS E, P, R,                 \* number of elements, submeshes, ranks
          FACES                    \* set of two-element sets of element numbers

VARIABLES own,    \* element -> submesh (0: not dealt)
          place,  \* submesh -> rank
          kind,   \* <<element, face>> -> "uncut" / "cut"
          list,   \* submesh -> neighbour submesh -> sequence of faces
          todo    \* faces not classified yet
vars == <<own, place, kind, list, todo>>

Elts == 1..E
Subs == 1..P
Init == /\ own = [e \in Elts |-> 0] /\ place = [s \in Subs |-> 0] /\ kind = << >>
        /\ list = [s \in Subs |-> [t \in Subs |-> << >>]] /\ todo = FACES

Deal == /\ \E e \in Elts : own[e] = 0 /\ (\A d \in 1..(e - 1) : own[d] # 0)
                          /\ \E s \in Subs : own' = [own EXCEPT ![e] = s]
        /\ UNCHANGED <<place, kind, list, todo>>
Place == /\ \A e \in Elts : own[e] # 0
         /\ \E s \in Subs : place[s] = 0 /\ (\A d \in 1..(s - 1) : place[d] # 0)
                           /\ \E r \in 1..R : place' = [place EXCEPT ![s] = r]
         /\ UNCHANGED <<own, kind, list, todo>>
Classify ==
    /\ \A s \in Subs : place[s] # 0
    /\ \E f \in todo :
        LET ss == {own[e] : e \in f}
        IN /\ todo' = todo \ {f}
           /\ kind' = [x \in DOMAIN kind \cup {<<e, f>> : e \in f} |->
                         IF x \in DOMAIN kind THEN kind[x] ELSE IF Cardinality(ss) = 2 THEN "cut" ELSE "uncut"]
           /\ list' = IF Cardinality(ss) = 2
                      THEN [s \in Subs |-> [t \in Subs |-> IF {s, t} = ss THEN Append(list[s][t], f) ELSE list[s][t]]]
                      ELSE list
    /\ UNCHANGED <<own, place>>
Done == todo = {} /\ UNCHANGED vars
Next == Deal \/ Place \/ Classify \/ Done
Spec == Init /\ [][Next]_vars

Final == todo = {} /\ \A s \in Subs : place[s] # 0
\* each cut face is in the lists of exactly its two submeshes, at the same position
Agree == \A s, t \in Subs : list[s][t] = list[t][s]
EachOnce == Final => \A f \in FACES :
    LET hits == {<<s, t, x>> \in Subs \X Subs \X (1..Cardinality(FACES)) : x <= Len(list[s][t]) /\ list[s][t][x] = f}
    IN IF Cardinality({own[e] : e \in f}) = 1 THEN hits = {} ELSE Cardinality(hits) = 2
BothSides == \A f \in FACES : \A e, d \in f : (<<e, f>> \in DOMAIN kind /\ <<d, f>> \in DOMAIN kind) => kind[<<e, f>>] = kind[<<d, f>>]
NoSelf == \A s \in Subs : list[s][s] = << >>
=============================================================================
