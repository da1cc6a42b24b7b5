------------------------------ MODULE MeshTrace ------------------------------
(* Judges what the program makes of mesh files:
   "m"  the connectivity read from a file (MeshMetaData),
   "o"  the mesh objects a run builds from it (elements, interfaces, boundaries and, for the hybridized problems, edges).
   Geometry of "o" comes in two integer scales: coarse (products stay small) and fine (differences only). *)
EXTENDS Mesh, TLC, Json, IOUtils
Ms == IF "RUNM" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.RUNM) ELSE <<>>
Os == IF "RUNO" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.RUNO) ELSE <<>>
VARIABLES what, r
vars == <<what, r>>
TInit == \/ what = "m" /\ r \in DOMAIN Ms
         \/ what = "o" /\ r \in DOMAIN Os
TSpec == TInit /\ [][UNCHANGED vars]_vars

\* ---------- what a file means
Lone(m) == {f \in Faces(m) : Cardinality(Owners(m, EdgeOf(m.elts[f[1]], f[2]))) = 1}
TypesOf(m) == [f \in Lone(m) |-> BoundTypes(m, EdgeOf(m.elts[f[1]], f[2]))]
Nameless(m) == \E f \in Lone(m) : TypesOf(m)[f] \in {{}, {UNDEF}}        \* an edge no section speaks for
Vague(m) == \E f \in Lone(m) : Cardinality(TypesOf(m)[f]) > 1            \* sections that contradict each other
BadSection(m) == \E s \in Rng(m.land) : SecType(s.t) = UNDEF             \* a section type the program does not know

\* ---------- m: connectivity as read
IdxOf(m, id) == CHOOSE i \in DOMAIN m.elts : m.elts[i].id = id
\* elements may be listed in any order of their nodes; faces are told apart by their edges
FaceOf(m, i, E) == CHOOSE k \in 0..2 : EdgeOf(m.elts[i], k) = E
Corners(e) == Len(e.n) = 3 /\ Cardinality(Rng(e.n)) = 3
ReadOk(m, o, T) ==
    /\ Len(o.elts) = Len(m.elts)
    /\ \A i \in DOMAIN m.elts : \E x \in DOMAIN o.elts :
        /\ o.elts[x].id = m.elts[i].id
        /\ Corners(o.elts[x]) /\ Rng(o.elts[x].n) = Rng(m.elts[i].n)
        /\ \A l \in 0..2 : LET k == FaceOf(m, i, EdgeOf(o.elts[x], l)) IN
            o.elts[x].bt[l + 1] = T[<<i, k>>][1] /\ o.elts[x].nb[l + 1] = T[<<i, k>>][2]
    /\ {o.nodes[x].id : x \in DOMAIN o.nodes} = {m.nodes[x].id : x \in DOMAIN m.nodes}
    /\ \A x \in DOMAIN m.nodes : \E y \in DOMAIN o.nodes : o.nodes[y] = m.nodes[x]
Mutual(o) ==
    \A x \in DOMAIN o.elts : \A k \in 1..3 :
        o.elts[x].nb[k] # -1 => \E y \in DOMAIN o.elts : \E l \in 1..3 :
            o.elts[y].id = o.elts[x].nb[k] /\ o.elts[y].nb[l] = o.elts[x].id /\ o.elts[y].bt[l] = o.elts[x].bt[k]
ReadRight == what = "m" =>
    LET R == Ms[r] m == R.mesh T == Table(m) IN
    IF Nameless(m) \/ BadSection(m) THEN "err" \in DOMAIN R.obs
    ELSE IF Vague(m) \/ ~Defined(m) THEN TRUE
    ELSE "err" \notin DOMAIN R.obs /\ ReadOk(m, R.obs, T)
ReadMutual == what = "m" =>
    LET R == Ms[r] IN ("err" \notin DOMAIN R.obs /\ Defined(R.mesh)) => Mutual(R.obs)

\* ---------- o: objects
Usable(m) == \A f \in Faces(m) : Table(m)[f][1] \notin {UNDEF, OUTF}
SidesI(o) == [x \in DOMAIN o.int |-> {<<o.int[x].i, o.int[x].k>>, <<o.int[x].j, o.int[x].l>>}]
AllSides(o) == UNION {SidesI(o)[x] : x \in DOMAIN o.int} \cup {<<o.bnd[x].i, o.bnd[x].k>> : x \in DOMAIN o.bnd}
\* every face in exactly one object
Once(m, o) ==
    /\ {o.elts[x].id : x \in DOMAIN o.elts} = {m.elts[i].id : i \in DOMAIN m.elts}
    /\ Len(o.elts) = Len(m.elts)
    /\ \A x \in DOMAIN o.elts : Corners(o.elts[x]) /\ Rng(o.elts[x].n) = Rng(m.elts[IdxOf(m, o.elts[x].id)].n)
    /\ AllSides(o) = {<<m.elts[f[1]].id, f[2]>> : f \in Faces(m)}
    /\ 2 * Len(o.int) + Len(o.bnd) = 3 * Len(m.elts)
Built1(o, id) == o.elts[CHOOSE x \in DOMAIN o.elts : o.elts[x].id = id]
EdgeAt(o, id, k) == EdgeOf(Built1(o, id), k)
KindAt(m, T, id, E) == LET i == IdxOf(m, id) IN T[<<i, FaceOf(m, i, E)>>][1]
KindsRight(m, o, T) ==
    /\ \A x \in DOMAIN o.int :
        LET f == o.int[x]
            A == EdgeAt(o, f.i, f.k)
            B == EdgeAt(o, f.j, f.l)
        IN /\ f.i # f.j
           /\ IF KindAt(m, T, f.i, A) = LEVEE
              THEN f.t = 1 /\ LevHas(m, A) /\ (<<A, B>> \in LevPairs(m) \/ <<B, A>> \in LevPairs(m))
              ELSE f.t = 0 /\ A = B
           /\ Rng(f.a) = A /\ Rng(f.b) = B
    /\ \A x \in DOMAIN o.bnd :
        LET f == o.bnd[x] A == EdgeAt(o, f.i, f.k) IN f.t = KindAt(m, T, f.i, A) /\ Rng(f.a) = A

\* the skeleton of a hybridized problem has one edge per object, attached to it
Skeleton(o) ==
    "eint" \in DOMAIN o =>
        /\ Len(o.eint) = Len(o.int) /\ Len(o.ebnd) = Len(o.bnd)
        /\ {<<e.t, e.i, e.k, e.j, e.l>> : e \in Rng(o.eint)} = {<<e.t, e.i, e.k, e.j, e.l>> : e \in Rng(o.int)}
        /\ {<<e.t, e.i, e.k>> : e \in Rng(o.ebnd)} = {<<e.t, e.i, e.k>> : e \in Rng(o.bnd)}

\* geometry: R.c[node] coarse point, R.f[node] fine point; H coarse length of a unit vector
Nd(R, n) == CHOOSE i \in DOMAIN R.ids : R.ids[i] = n
Cross(ax, ay, bx, by) == ax * by - ay * bx
Dot(ax, ay, bx, by) == ax * bx + ay * by
Ab(x) == IF x < 0 THEN -x ELSE x
H == 8192
SideGeo(R, id, k, nrm, c, f) ==
    LET e == Built1(R.obs, id)
        A == Nd(R, e.n[((k + 1) % 3) + 1]) B == Nd(R, e.n[((k + 2) % 3) + 1]) O == Nd(R, e.n[k + 1])
        dx == R.c[B][1] - R.c[A][1] dy == R.c[B][2] - R.c[A][2]
        G == Len(f[1])
    IN /\ \A g \in 1..G :
            /\ Ab(nrm[1][g] * nrm[1][g] + nrm[2][g] * nrm[2][g] - H * H) <= 4 * H                       \* unit
            /\ Ab(Dot(nrm[1][g], nrm[2][g], dx, dy)) <= 2 * H                                            \* normal to the edge
            /\ Dot(nrm[1][g], nrm[2][g], R.c[A][1] - R.c[O][1], R.c[A][2] - R.c[O][2]) > H             \* outward
            /\ Ab(Cross(c[1][g] - R.c[A][1], c[2][g] - R.c[A][2], dx, dy)) <= 2 * (Ab(dx) + Ab(dy))      \* on the edge
            /\ \A d \in 1..2 : Ab(f[d][g] + f[d][G + 1 - g] - R.f[A][d] - R.f[B][d]) <= 4                \* symmetric on it
       /\ \A g, h \in 1..G : g # h => \E d \in 1..2 : Ab(f[d][g] - f[d][h]) > 4
Faced(R, o) ==
    /\ \A x \in DOMAIN o.int :
        LET F == o.int[x] G == Len(F.fi[1]) IN
        /\ Len(F.fe[1]) = G
        /\ SideGeo(R, F.i, F.k, F.ni, F.ci, F.fi)
        /\ SideGeo(R, F.j, F.l, F.ne, F.ce, F.fe)
        /\ \A g \in 1..G : \A d \in 1..2 : Ab(F.ni[d][g] + F.ne[d][G + 1 - g]) <= 1
        \* the same point seen from both sides: equal, or for a levee the same distance along its two edges (which are translates)
        /\ IF F.t = 0 THEN \A g \in 1..G : \A d \in 1..2 : Ab(F.fi[d][g] - F.fe[d][G + 1 - g]) <= 2
           ELSE LET e == Built1(o, F.i) h == Built1(o, F.j)
                    A == Nd(R, e.n[((F.k + 1) % 3) + 1]) B == Nd(R, h.n[((F.l + 2) % 3) + 1])
                IN \A g \in 1..G : \A d \in 1..2 : Ab((F.fi[d][g] - R.f[A][d]) - (F.fe[d][G + 1 - g] - R.f[B][d])) <= 4
    /\ \A x \in DOMAIN o.bnd : LET F == o.bnd[x] IN SideGeo(R, F.i, F.k, F.ni, F.ci, F.fi)

Built == what = "o" /\ "err" \notin DOMAIN Os[r].obs
Accepts == what = "o" => ((Usable(Os[r].mesh) /\ Os[r].data) => "err" \notin DOMAIN Os[r].obs)
Refuses == what = "o" => (~Os[r].data => "err" \in DOMAIN Os[r].obs)
Complete == Built => Once(Os[r].mesh, Os[r].obs)
Kinds == (Built /\ Usable(Os[r].mesh)) => KindsRight(Os[r].mesh, Os[r].obs, Table(Os[r].mesh))
Edges == Built => Skeleton(Os[r].obs)
Geometry == (Built /\ Usable(Os[r].mesh)) => Faced(Os[r], Os[r].obs)
==============================================================================
