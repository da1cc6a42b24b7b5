---------------------------- MODULE PartitionTrace ----------------------------
(* Judges the files the real partitioner wrote (read back with the program's own readers) for the mesh it was given. *)
EXTENDS Mesh, TLC, Json, IOUtils
Meshes == ndJsonDeserialize(IOEnv.MESHES)
Runs == ndJsonDeserialize(IOEnv.PRUNS)
VARIABLE r
Tab == [i \in DOMAIN Meshes |-> Table(Meshes[i])]
TInit == r \in DOMAIN Runs
TSpec == TInit /\ [][UNCHANGED r]_r

R == Runs[r]
M == Meshes[R.mesh]
T == Tab[R.mesh]
ById == [i \in {M.elts[x].id : x \in DOMAIN M.elts} |-> CHOOSE x \in DOMAIN M.elts : M.elts[x].id = i]
Coord == [i \in {M.nodes[x].id : x \in DOMAIN M.nodes} |-> (M.nodes[CHOOSE x \in DOMAIN M.nodes : M.nodes[x].id = i]).x]
SubsOf == DOMAIN R.subs
IdsIn(s) == {R.subs[s].elts[x].id : x \in DOMAIN R.subs[s].elts}
Where == [i \in DOMAIN ById |-> {s \in SubsOf : i \in IdsIn(s)}]

\* every element in exactly one submesh, once, and nothing else anywhere
Cover == /\ \A i \in DOMAIN ById : Cardinality(Where[i]) = 1
         /\ \A s \in SubsOf : IdsIn(s) \subseteq DOMAIN ById /\ Cardinality(IdsIn(s)) = Len(R.subs[s].elts)
         /\ Len(R.subs) <= R.parts
         /\ \A s \in SubsOf : R.subs[s].rank < R.nloc
         \* submeshes of a rank are numbered from zero without gaps
         /\ \A s \in SubsOf : R.subs[s].idx = 0 \/ \E t \in SubsOf : R.subs[t].rank = R.subs[s].rank /\ R.subs[t].idx = R.subs[s].idx - 1
Home(i) == CHOOSE s \in Where[i] : TRUE

\* nodes of the submesh with their coordinates; an element keeps its node order
NodesKept == Cover => \A s \in SubsOf :
    /\ \A x \in DOMAIN R.subs[s].elts : R.subs[s].elts[x].n = M.elts[ById[R.subs[s].elts[x].id]].n
    /\ {R.subs[s].nodes[x].id : x \in DOMAIN R.subs[s].nodes} = UNION {Rng(R.subs[s].elts[x].n) : x \in DOMAIN R.subs[s].elts}
    /\ \A x \in DOMAIN R.subs[s].nodes : R.subs[s].nodes[x].x = Coord[R.subs[s].nodes[x].id]
    /\ Cardinality({R.subs[s].nodes[x].id : x \in DOMAIN R.subs[s].nodes}) = Len(R.subs[s].nodes)

Partner(i, k) == T[<<ById[i], k>>][2]
IsCut(i, k) == Partner(i, k) # -1 /\ Home(Partner(i, k)) # Home(i)
TypesKept == Cover => \A s \in SubsOf : \A x \in DOMAIN R.subs[s].elts : \A k \in 0..2 :
    LET e == R.subs[s].elts[x]
        t == T[<<ById[e.id], k>>]
    IN /\ e.nb[k + 1] = t[2]
       /\ e.bt[k + 1] = IF IsCut(e.id, k) THEN t[1] + CUT ELSE t[1]

\* the face of the neighbour that looks back at <<i, k>>
FaceBack(i, k) == CHOOSE f \in 0..2 : T[<<ById[Partner(i, k)], f>>][2] = i /\ T[<<ById[Partner(i, k)], f>>][1] = T[<<ById[i], k>>][1]
CutFaces(s, t) == {<<i, k, Partner(i, k), FaceBack(i, k)>> :
                     <<i, k>> \in {f \in IdsIn(s) \X (0..2) : IsCut(f[1], f[2]) /\ Home(Partner(f[1], f[2])) = t}}
Listed(d) == [x \in DOMAIN d.ein |-> <<d.ein[x], d.fin[x], d.eex[x], d.fex[x]>>]
Mirror(q) == [x \in DOMAIN q |-> <<q[x][3], q[x][4], q[x][1], q[x][2]>>]
Entry(s, t) == {x \in DOMAIN R.subs[s].db : R.subs[s].db[x].lex = R.subs[t].rank /\ R.subs[s].db[x].sex = R.subs[t].idx}
Lists == Cover => \A s \in SubsOf :
    /\ \A x \in DOMAIN R.subs[s].db : R.subs[s].db[x].lin = R.subs[s].rank /\ R.subs[s].db[x].sin = R.subs[s].idx
    /\ \A x \in DOMAIN R.subs[s].db : \E t \in SubsOf : x \in Entry(s, t)
    /\ \A t \in SubsOf \ {s} :
        LET C == CutFaces(s, t)
        IN IF C = {} THEN Entry(s, t) = {}
           ELSE /\ Cardinality(Entry(s, t)) = 1
                /\ Cardinality(Entry(t, s)) = 1
                /\ LET d == R.subs[s].db[CHOOSE x \in Entry(s, t) : TRUE]
                       g == R.subs[t].db[CHOOSE x \in Entry(t, s) : TRUE]
                   IN /\ Rng(Listed(d)) = C /\ Len(Listed(d)) = Cardinality(C)
                      /\ Listed(d) = Mirror(Listed(g))
                      /\ \A x \in DOMAIN d.p : d.p[x] = R.p
InputOk == R.input = [mesh |-> R.stem \o ".meta", fmt |-> "Meta", p |-> R.p]
=============================================================================
