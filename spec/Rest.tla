-------------------------------- MODULE Rest --------------------------------
(* Lake at rest.  A still lake with level surface z is an equilibrium of each
   cell: the wall/face pressure, the volume pressure term and the bed slope
   source cancel against every linear test function, over any linear bed
   (Balanced, explored exhaustively over lattice triangles).  A run started
   from a still lake must therefore never leave the rest state (RestTrace). *)
EXTENDS Integers, Sequences
CONSTANTS G, Beds, Levels
Pts == (0..G) \X (0..G)
Det(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (c[1]-a[1])*(b[2]-a[2])
VARIABLES tri, bed, phi, z
vars == <<tri, bed, phi, z>>
Init == /\ tri \in {t \in Pts \X Pts \X Pts : Det(t[1], t[2], t[3]) > 0}
        /\ bed \in Beds \X Beds \X Beds
        /\ phi \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,1,1>>}
        /\ z \in {k - 4 : k \in Levels}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
nx(k) == (k % 3) + 1
(* twice the area times the gradient of a nodal linear function *)
Grad(f, d) == LET g(k) == LET i == nx(k) j == nx(nx(k)) IN
                 IF d = 1 THEN tri[i][2] - tri[j][2] ELSE tri[j][1] - tri[i][1]
              IN f[1]*g(1) + f[2]*g(2) + f[3]*g(3)
Sum3(f) == f[1] + f[2] + f[3]
(* outward normal times length of the edge from vertex i to its successor *)
Nrm(i, d) == IF d = 1 THEN tri[nx(i)][2] - tri[i][2] ELSE tri[i][1] - tri[nx(i)][1]
(* 12 x edge integral of (z^2/2 + z b) phi, per unit normal *)
Edge(i) == LET j == nx(i) IN 3*z*z*(phi[i] + phi[j]) + 2*z*(2*phi[i]*bed[i] + 2*phi[j]*bed[j] + phi[i]*bed[j] + phi[j]*bed[i])
Residual(d) == - (Edge(1)*Nrm(1, d) + Edge(2)*Nrm(2, d) + Edge(3)*Nrm(3, d))
               + (3*z*z + 2*z*Sum3(bed)) * Grad(phi, d)          \* volume pressure term
               + 2*z*Sum3(phi) * Grad(bed, d)                    \* bed slope source
Balanced == Residual(1) = 0 /\ Residual(2) = 0
=============================================================================
