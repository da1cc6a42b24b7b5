-------------------------------- MODULE MeshMC --------------------------------
(* How connectivity and faces come about: elements enter their edges in a dictionary in any order, lone edges are looked up in
   the boundary sections, then the halves of faces are taken up one by one and joined with their counterparts.  Whatever the
   order, the outcome has to be the one the mesh itself determines (Mesh.tla), and no half may get lost. *)
EXTENDS Mesh, TLC
CONSTANTS MESH, DROP
VARIABLES todo, dict, raw, made, stop
vars == <<todo, dict, raw, made, stop>>
\* two triangles; four around a point; two blocks joined by a levee; a levee whose back edge is no boundary; an edge without a section
Two == [elts |-> <<[id |-> 7, n |-> <<1, 2, 3>>], [id |-> 3, n |-> <<4, 3, 2>>]>>, open |-> <<<<1, 2>>>>,
        land |-> <<[t |-> 0, s |-> <<2, 4>>], [t |-> 12, s |-> <<3, 1>>]>>, lev |-> <<>>, gen |-> <<<<3, 4>>>>]
Fan == [elts |-> <<[id |-> 1, n |-> <<1, 2, 5>>], [id |-> 2, n |-> <<5, 2, 3>>], [id |-> 3, n |-> <<3, 4, 5>>], [id |-> 4, n |-> <<1, 5, 4>>]>>,
        open |-> <<>>, land |-> <<[t |-> 21, s |-> <<1, 2, 3, 4>>]>>, lev |-> <<>>, gen |-> <<>>]
Dike == [elts |-> <<[id |-> 1, n |-> <<1, 2, 3>>], [id |-> 2, n |-> <<4, 5, 6>>]>>, open |-> <<>>,
         land |-> <<[t |-> 0, s |-> <<3, 1, 2>>], [t |-> 10, s |-> <<4, 6>>], [t |-> 77, s |-> <<6, 5>>]>>,
         lev |-> <<<<<<2, 4>>, <<3, 5>>>>>>, gen |-> <<>>]
Hang == [elts |-> <<[id |-> 1, n |-> <<1, 2, 3>>], [id |-> 2, n |-> <<4, 5, 6>>], [id |-> 3, n |-> <<5, 4, 7>>]>>, open |-> <<>>,
         land |-> <<[t |-> 0, s |-> <<3, 1, 2>>], [t |-> 10, s |-> <<4, 6, 5>>], [t |-> 0, s |-> <<4, 7, 5>>]>>,
         lev |-> <<<<<<2, 4>>, <<3, 5>>>>>>, gen |-> <<>>]
Bare == [Two EXCEPT !.gen = <<>>]

Keys == {EdgeOf(MESH.elts[f[1]], f[2]) : f \in Faces(MESH)}
Init == todo = DOMAIN MESH.elts /\ dict = [E \in Keys |-> <<>>] /\ raw = {} /\ made = {} /\ stop = "no"
Enter(i) == /\ stop = "no" /\ i \in todo /\ todo' = todo \ {i}
            /\ dict' = [E \in Keys |-> IF \E k \in 0..2 : EdgeOf(MESH.elts[i], k) = E
                                       THEN Append(dict[E], <<i, CHOOSE k \in 0..2 : EdgeOf(MESH.elts[i], k) = E>>) ELSE dict[E]]
            /\ UNCHANGED <<raw, made, stop>>
Half(f, t, j) == [f |-> f, t |-> t, j |-> j]
Halves == UNION {
    IF Len(dict[E]) = 2 THEN {Half(dict[E][1], INTERNAL, dict[E][2][1]), Half(dict[E][2], INTERNAL, dict[E][1][1])}
    ELSE LET t == CHOOSE x \in BoundTypes(MESH, E) : TRUE
         IN IF t # LEVEE THEN {Half(dict[E][1], t, -1)}
            ELSE {Half(dict[E][1], LEVEE, dict[LevPartner(MESH, E)][1][1])} : E \in Keys}
Classify == /\ stop = "no" /\ todo = {} /\ raw = {} /\ made = {}
            /\ IF \E E \in Keys : Len(dict[E]) = 1 /\ BoundTypes(MESH, E) = {} THEN stop' = "refused" /\ raw' = raw
               ELSE raw' = Halves /\ stop' = stop
            /\ UNCHANGED <<todo, dict, made>>
Take(h) == /\ stop = "no" /\ h \in raw
           /\ IF h.t \notin {INTERNAL, LEVEE} THEN raw' = raw \ {h} /\ made' = made \cup {{h.f}} /\ stop' = stop
              ELSE LET P == {g \in raw : g.t = h.t /\ g.f[1] = h.j /\ g.j = h.f[1]}
                   IN IF P = {} THEN IF DROP THEN raw' = raw \ {h} /\ UNCHANGED <<made, stop>> ELSE stop' = "refused" /\ UNCHANGED <<raw, made>>
                      ELSE LET g == CHOOSE g \in P : TRUE IN raw' = raw \ {h, g} /\ made' = made \cup {{h.f, g.f}} /\ stop' = stop
           /\ UNCHANGED <<todo, dict>>
Next == (\E i \in todo : Enter(i)) \/ Classify \/ (\E h \in raw : Take(h))
Spec == Init /\ [][Next]_vars
Done == stop = "no" /\ todo = {} /\ raw = {} /\ made # {}
\* every half is in exactly one face
EachOnce == Done => /\ UNION made = Faces(MESH)
                    /\ \A a, b \in made : a = b \/ a \cap b = {}
\* faces are the ones the mesh determines
Right == (Done /\ Defined(MESH)) =>
    \A a \in made : IF Cardinality(a) = 1 THEN \A f \in a : Table(MESH)[f][2] = -1
                    ELSE \A f, g \in a : f # g => Table(MESH)[f][2] = MESH.elts[g[1]].id
\* good meshes are never refused, others always
Verdict == /\ stop = "refused" => ~Defined(MESH)
           /\ Done => Defined(MESH)
==============================================================================
