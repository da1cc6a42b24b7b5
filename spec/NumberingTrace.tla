---------------------------- MODULE NumberingTrace ----------------------------
(* The numbering of face unknowns the program ended up with, over all submeshes of a run, against the faces of the mesh.
   A run: mesh (index into MESHES), blk (numbers per face: what the polynomial order requires), unit (system size per number),
   subs: sequence of [size, elts, eint, ebnd, edis]. *)
EXTENDS Mesh, TLC, Json, IOUtils
Meshes == ndJsonDeserialize(IOEnv.MESHES)
Runs == ndJsonDeserialize(IOEnv.RUNR)
VARIABLE r
TInit == r \in DOMAIN Runs
TSpec == TInit /\ [][UNCHANGED r]_r
R == Runs[r]
M == Meshes[R.mesh]
Tab == [i \in DOMAIN Meshes |-> Table(Meshes[i])]
T == Tab[R.mesh]
Id == [x \in {M.elts[i].id : i \in DOMAIN M.elts} |-> CHOOSE i \in DOMAIN M.elts : M.elts[i].id = x]
\* the block an element keeps for each of its faces: from whatever submesh the element is in
Kept == UNION {{<<<<e.id, k>>, e.blk[k + 1]>> : e \in Rng(R.subs[s].elts), k \in 0..2} : s \in DOMAIN R.subs}
All == {<<M.elts[i].id, k>> : i \in DOMAIN M.elts, k \in 0..2}
Whole == {x[1] : x \in Kept} = All /\ Cardinality(Kept) = Cardinality(All)
Blk == [f \in All |-> (CHOOSE x \in Kept : x[1] = f)[2]]
\* the other half of a face
Back(f) == LET t == T[<<Id[f[1]], f[2]>>]
           IN IF t[2] = -1 THEN f
              ELSE <<t[2], CHOOSE k \in 0..2 : T[<<Id[t[2]], k>>] = <<t[1], f[1]>>>>
Sized == Whole => \A f \in All : Len(Blk[f]) = R.blk /\ Cardinality(Rng(Blk[f])) = R.blk
SharedBlocks == Whole => \A f \in All : Blk[f] = Blk[Back(f)]
Disjoint == (Whole /\ Sized) =>
    LET Firsts == {Blk[f] : f \in All}
        Union == UNION {Rng(b) : b \in Firsts}
    IN /\ Cardinality(Firsts) = (Cardinality(All) + Cardinality({f \in All : Back(f) = f})) \div 2      \* one block per face
       /\ Cardinality(Union) = R.blk * Cardinality(Firsts)
       /\ Union = 0..(R.blk * Cardinality(Firsts) - 1)
       /\ \A s \in DOMAIN R.subs : R.subs[s].size = R.unit * Cardinality(Union)
\* the face objects use the same numbers, and have the unknowns their order requires
Objects == Whole => \A s \in DOMAIN R.subs :
    /\ \A e \in Rng(R.subs[s].eint) : e.blk = Blk[<<e.i, e.k>>] /\ e.blk = Blk[<<e.j, e.l>>] /\ Back(<<e.i, e.k>>) = <<e.j, e.l>> /\ e.ndof = R.p + 1
    /\ \A e \in Rng(R.subs[s].ebnd) : e.blk = Blk[<<e.i, e.k>>] /\ Back(<<e.i, e.k>>) = <<e.i, e.k>> /\ e.ndof = R.p + 1
    /\ \A e \in Rng(R.subs[s].edis) : e.blk = Blk[<<e.i, e.k>>] /\ Back(<<e.i, e.k>>) # <<e.i, e.k>> /\ e.ndof = R.p + 1
    /\ 2 * Len(R.subs[s].eint) + Len(R.subs[s].ebnd) + Len(R.subs[s].edis) = 3 * Len(R.subs[s].elts)
================================================================================
