----------------------------- MODULE SymmetryMC -----------------------------
EXTENDS Symmetry
Fc(b, x, y) == [nb |-> b, n |-> <<x, y>>]
\* two squares, each cut by a diagonal (right triangles, integer normals)
Sq == << <<Fc(0, 0, -1), Fc(3, 1, 0), Fc(2, -1, 1)>>, <<Fc(1, 1, -1), Fc(0, 0, 1), Fc(0, -1, 0)>>,
         <<Fc(4, 1, 1), Fc(1, -1, 0), Fc(0, 0, -1)>>, <<Fc(0, 1, 0), Fc(0, 0, 1), Fc(3, -1, -1)>> >>
V0 == << <<3, 1, -2>>, <<5, -1, 0>>, <<2, 2, 1>>, <<7, 0, 3>> >>
Init == /\ mesh = Sq /\ u = V0 /\ steps = 0
        /\ pi \in Perms /\ M \in D4
        /\ \E rot \in {<<0,0,0,0>>, <<1,1,1,1>>, <<0,1,2,0>>, <<2,0,1,1>>} : meshT = TMesh(Sq, pi, M, rot)
        /\ uT = TAll(V0, pi, M)
Spec == Init /\ [][Step]_vars
=============================================================================
