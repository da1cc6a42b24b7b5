-------------------------------- MODULE Mesh --------------------------------
(* What a mesh file means: which element edges are faces, to whom, of which type.
   A mesh is a record
     elts : sequence of [id, n]             n: three node ids, edge k (0..2) lies opposite node k
     open : sequence of node sequences      land : sequence of [t, s]   (t: section type number)
     lev  : sequence of sequences of <<front, back>>                      gen : sequence of node sequences *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

INTERNAL == 128
LEVEE == 129
CUT == 64            \* added to the type of a face on a partition boundary
LAND == 0
TIDE == 1
FLOW == 2
FUNC == 3
OUTF == 4
UNDEF == 999

Rng(s) == {s[i] : i \in DOMAIN s}
EdgeOf(e, k) == {e.n[((k + 1) % 3) + 1], e.n[((k + 2) % 3) + 1]}
Faces(m) == {<<i, k>> : i \in DOMAIN m.elts, k \in 0..2}

SegHas(s, E) == \E x \in 1..(Len(s) - 1) : {s[x], s[x + 1]} = E
LoopHas(s, E) == SegHas(s, E) \/ (Len(s) > 0 /\ {s[1], s[Len(s)]} = E)

\* edges joined by a levee: front edge and back edge of two consecutive pairs
LevPairs(m) == UNION {{<<{s[x][1], s[x + 1][1]}, {s[x][2], s[x + 1][2]}>> : x \in 1..(Len(s) - 1)} : s \in Rng(m.lev)}
LevEnds(m) == UNION {{Rng(s[1]), Rng(s[Len(s)])} : s \in Rng(m.lev)}
LevHas(m, E) == \E p \in LevPairs(m) : E = p[1] \/ E = p[2]
LevPartner(m, E) == CHOOSE F \in UNION {{p[1], p[2]} : p \in LevPairs(m)} : <<E, F>> \in LevPairs(m) \/ <<F, E>> \in LevPairs(m)

SecType(t) == IF t = 77 THEN FUNC ELSE IF t = 88 THEN OUTF ELSE IF t % 10 \in {0, 1} THEN LAND ELSE IF t % 10 = 2 THEN FLOW ELSE UNDEF

\* every section an edge belongs to
BoundTypes(m, E) ==
    (IF \E s \in Rng(m.open) : SegHas(s, E) THEN {TIDE} ELSE {})
    \cup {SecType(l.t) : l \in {x \in Rng(m.land) : IF x.t \notin {77, 88} /\ x.t % 10 = 1 THEN LoopHas(x.s, E) ELSE SegHas(x.s, E)}}
    \cup (IF LevHas(m, E) THEN {LEVEE} ELSE {})
    \cup (IF \E s \in Rng(m.gen) : SegHas(s, E) THEN {LAND} ELSE {})
    \cup (IF E \in LevEnds(m) THEN {LAND} ELSE {})

\* owners of an edge
Owners(m, E) == {i \in DOMAIN m.elts : E \subseteq Rng(m.elts[i].n)}

\* <<type, neighbour id or -1>> of every face; built on a table of edges so that larger meshes stay cheap
Table(m) ==
    [f \in Faces(m) |->
        LET E == EdgeOf(m.elts[f[1]], f[2])
            O == Owners(m, E) \ {f[1]}
        IN IF O # {} THEN <<INTERNAL, m.elts[CHOOSE j \in O : TRUE].id>>
           ELSE LET B == BoundTypes(m, E)
                IN IF Cardinality(B) # 1 THEN <<UNDEF, -1>>
                   ELSE LET t == CHOOSE x \in B : TRUE
                        IN IF t # LEVEE THEN <<t, -1>>
                           ELSE LET P == Owners(m, LevPartner(m, E))
                                IN IF Cardinality(P) # 1 THEN <<UNDEF, -1>>
                                   ELSE <<LEVEE, m.elts[CHOOSE j \in P : TRUE].id>>]
Defined(m) == \A f \in Faces(m) : Table(m)[f][1] # UNDEF
=============================================================================
