------------------------------ MODULE QuadTrace ------------------------------
(* Judges the files the generator wrote for a request.
   R.m R.n R.pat R.types R.q (corners, integers)   R.f[s] the forcing asked for on side s
   R.mesh: elements and sections as written (Mesh.tla)   R.pos[x] = <<m*n*x, m*n*y, m*n*z>> of R.mesh.nodes[x] in units of 1/R.u
   R.hdr: counts announced in the file   R.bcis: blocks [t, n, freq, fact, arg, nodes]   R.obs: what the program's reader made of it *)
EXTENDS Mesh, TLC, Json, IOUtils
LOCAL Q == INSTANCE Quad
Rs == ndJsonDeserialize(IOEnv.RUNR)
VARIABLES what, r
vars == <<what, r>>
TInit == what = "r" /\ r \in DOMAIN Rs
TSpec == TInit /\ [][UNCHANGED vars]_vars
R == Rs[r]
Ab(x) == IF x < 0 THEN -x ELSE x
Ok == R.rc = 0
TNum(t) == CASE t = "land" -> LAND [] t = "tide" -> TIDE [] t = "flow" -> FLOW [] t = "function" -> FUNC [] t = "outflow" -> OUTF

\* requests that make no sense are refused, the others are answered
Answers == IF R.sane THEN Ok ELSE R.rc = 1      \* rc 2: it crashed

\* nodes: one at every lattice point
L == Q!Lattice(R.m, R.n)
Near(x) == \A d \in 1..2 : Ab(R.pos[x][d] - R.u * Q!Bil(R.q, R.m, R.n, R.at[x], d)) <= 5
Placed == /\ \A x \in DOMAIN R.pos : R.at[x] \in L /\ Near(x)
          /\ Rng(R.at) = L
Nodes == (Ok /\ R.sane) =>
    /\ Len(R.ids) = (R.m + 1) * (R.n + 1) /\ Cardinality(Rng(R.ids)) = Len(R.ids) /\ Len(R.pos) = Len(R.ids)
    /\ Placed
\* the depth of a node is the bed at its own position: here 3x - 2y (+ 1000)
Depth == (Ok /\ R.sane /\ R.bed) =>
    \A x \in DOMAIN R.pos : Ab(R.pos[x][3] - (3 * R.pos[x][1] - 2 * R.pos[x][2] + 7 * R.m * R.n * R.u)) <= 40

\* the lattice point of a node id, and back
LatOf == TLCEval([i \in Rng(R.ids) |-> R.at[CHOOSE x \in DOMAIN R.ids : R.ids[x] = i]])
IdOf == TLCEval([l \in L |-> R.ids[CHOOSE x \in DOMAIN R.at : R.at[x] = l]])
Tri == LET P == LatOf IN
       TLCEval([x \in DOMAIN R.mesh.elts |-> <<P[R.mesh.elts[x].n[1]], P[R.mesh.elts[x].n[2]], P[R.mesh.elts[x].n[3]]>>])
Located == Rng(R.at) = L
Tiling == (Ok /\ R.sane /\ Located) =>
    /\ Len(R.mesh.elts) = 2 * R.m * R.n
    /\ Cardinality({R.mesh.elts[x].id : x \in DOMAIN R.mesh.elts}) = 2 * R.m * R.n
    /\ \A x \in DOMAIN R.mesh.elts : Rng(R.mesh.elts[x].n) \subseteq Rng(R.ids) /\ R.sh[x] = 3
    /\ LET T == Tri IN Q!Tiles(R.m, R.n, T)
Pattern == (Ok /\ R.sane /\ Located) => LET T == Tri IN Q!Follows(R.pat, R.m, R.n, T)
\* no triangle degenerates or turns over once it is laid in the plane
Px(l) == <<Q!Bil(R.q, R.m, R.n, l, 1), Q!Bil(R.q, R.m, R.n, l, 2)>>
Flat == (Ok /\ R.sane /\ Located) =>
    LET T == Tri IN
    \A x \in DOMAIN T : LET a == Px(T[x][1]) b == Px(T[x][2]) c == Px(T[x][3])
                        IN (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2]) > 0

\* sections: every edge of side s lies in exactly one section, of the type asked for; nothing else is listed
Secs == [x \in 1..(Len(R.mesh.open) + Len(R.mesh.land)) |->
            IF x <= Len(R.mesh.open) THEN [t |-> TIDE, s |-> R.mesh.open[x]]
            ELSE [t |-> SecType(R.mesh.land[x - Len(R.mesh.open)].t), s |-> R.mesh.land[x - Len(R.mesh.open)].s]]
Sections == (Ok /\ R.sane /\ Located) =>
    LET I == IdOf
        Id(l) == I[l]
        S == Secs
        Segs == UNION {{<<x, y>> : y \in 1..(Len(S[x].s) - 1)} : x \in DOMAIN S}
        E(p) == {S[p[1]].s[p[2]], S[p[1]].s[p[2] + 1]}
    IN /\ \A s \in 1..4 : \A e \in Q!Side(R.m, R.n, s) :
            LET H == {p \in Segs : E(p) = {Id(e[1]), Id(e[2])}}
            IN Cardinality(H) = 1 /\ \A p \in H : S[p[1]].t = TNum(R.types[s])
       /\ Cardinality(Segs) = 2 * (R.m + R.n)
       /\ R.mesh.lev = <<>> /\ R.mesh.gen = <<>>
Announced == (Ok /\ R.sane) =>
    LET Sum(q) == LET RECURSIVE F(_)
                      F(i) == IF i = 0 THEN 0 ELSE F(i - 1) + Len(q[i])
                  IN F(Len(q))
    IN /\ R.hdr.ne = Len(R.mesh.elts) /\ R.hdr.nn = Len(R.ids)
       /\ R.hdr.nope = Len(R.mesh.open) /\ R.hdr.neta = Sum(R.mesh.open)
       /\ R.hdr.nbou = Len(R.mesh.land) /\ R.hdr.nvel = Sum([x \in DOMAIN R.mesh.land |-> R.mesh.land[x].s])

\* forcing: the first block that covers an edge of a tide or flow side is the side's own
Forced == (Ok /\ R.sane /\ Located) =>
    LET I == IdOf
        Id(l) == I[l]
    IN /\ \A s \in 1..4 : R.types[s] \in {"tide", "flow"} =>
            \A e \in Q!Side(R.m, R.n, s) :
                LET C == {b \in DOMAIN R.bcis : R.bcis[b].t = TNum(R.types[s]) /\ {Id(e[1]), Id(e[2])} \subseteq Rng(R.bcis[b].nodes)}
                IN C # {} /\ LET b == CHOOSE x \in C : \A y \in C : x <= y
                             IN R.bcis[b].f = R.f[s]
       /\ \A b \in DOMAIN R.bcis : R.bcis[b].n = Len(R.bcis[b].nodes) /\ R.bcis[b].t \in {TIDE, FLOW} /\ R.bcis[b].plain
       /\ Len(R.bcis) = Cardinality({s \in 1..4 : R.types[s] \in {"tide", "flow"}})

\* the program takes the mesh for what it says, and can run on it
ReadBack == (Ok /\ R.sane) =>
    LET T == TLCEval(Table(R.mesh)) o == R.obs IN
    /\ "err" \notin DOMAIN o /\ Len(o.elts) = Len(R.mesh.elts)
    /\ \A x \in DOMAIN o.elts : \E i \in DOMAIN R.mesh.elts :
        /\ o.elts[x].id = R.mesh.elts[i].id /\ o.elts[x].n = R.mesh.elts[i].n
        /\ \A k \in 0..2 : o.elts[x].bt[k + 1] = T[<<i, k>>][1] /\ o.elts[x].nb[k + 1] = T[<<i, k>>][2] /\ o.elts[x].bt[k + 1] # UNDEF
    /\ {o.nodes[x].id : x \in DOMAIN o.nodes} = Rng(R.ids)
Runs == (Ok /\ R.sane /\ R.tried) => (IF OUTF \in {TNum(R.types[s]) : s \in 1..4} THEN TRUE ELSE R.built)
==============================================================================
