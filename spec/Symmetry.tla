------------------------------ MODULE Symmetry ------------------------------
(* Two runs in lock step: a computation on a mesh, and the same computation on the renumbered, re-listed, rotated or
   reflected mesh.  Elements are lists of three faces; a face knows its neighbour (0: wall) and its outward normal.
   A state is a level and a momentum vector per element.  Nothing in a step may depend on numbers or axes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Defect
VARIABLES mesh, u,      \* face table and state as numbered by the input
          meshT, uT,    \* of the transformed input
          pi, M, steps  \* element renumbering, linear map of the plane
vars == <<mesh, u, meshT, uT, pi, M, steps>>
El == 1..N
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Mul(A, v) == <<A[1][1] * v[1] + A[1][2] * v[2], A[2][1] * v[1] + A[2][2] * v[2]>>
Wall(n, s) == <<s[1], s[2] - 2 * n[1] * ((s[2] * n[1] + s[3] * n[2]) \div Dot(n, n)), s[3] - 2 * n[2] * ((s[2] * n[1] + s[3] * n[2]) \div Dot(n, n))>>
Mod(x) == x % 101
Q(s) == <<s[2], s[3]>>
(* flux through one face from own to neighbour state; twice the mean, dissipation by the jump *)
Flux(e, f, own, nb, n) ==
    LET up == IF Defect = "upwind" THEN (IF e > f.nb THEN own ELSE nb) ELSE own
        ax == IF Defect = "axis" THEN <<n[1], 0>> ELSE n
    IN << Dot(Q(up), n) + Dot(Q(nb), n) + (own[1] - nb[1]) * Dot(n, n),
          (own[1] + nb[1]) * n[1] + (own[2] - nb[2]) * Dot(n, ax),
          (own[1] + nb[1]) * n[2] + (own[3] - nb[3]) * Dot(n, ax) >>
StepOf(m, v) == [e \in El |->
    LET fl(k) == LET f == m[e][k] IN Flux(e, f, v[e], IF f.nb = 0 THEN Wall(f.n, v[e]) ELSE v[f.nb], f.n)
        w(k) == IF Defect = "first" /\ k = 1 THEN 2 ELSE 1
        T(c) == v[e][c] - w(1) * fl(1)[c] - w(2) * fl(2)[c] - w(3) * fl(3)[c]
    IN <<T(1), T(2), T(3)>>]
(* ---- transformations ---- *)
D4 == {<<<<1,0>>,<<0,1>>>>, <<<<0,-1>>,<<1,0>>>>, <<<<-1,0>>,<<0,-1>>>>, <<<<0,1>>,<<-1,0>>>>,
       <<<<-1,0>>,<<0,1>>>>, <<<<1,0>>,<<0,-1>>>>, <<<<0,1>>,<<1,0>>>>, <<<<0,-1>>,<<-1,0>>>>}
Det(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1]
Perms == {p \in [El -> El] : \A a, b \in El : a # b => p[a] # p[b]}
Inv(p) == [b \in El |-> CHOOSE a \in El : p[a] = b]
TMesh(m, p, A, rot) == [b \in El |-> LET a == Inv(p)[b] IN
    [k \in 1..3 |-> LET f == m[a][((k + rot[a] - 1) % 3) + 1] IN [nb |-> IF f.nb = 0 THEN 0 ELSE p[f.nb], n |-> Mul(A, f.n)]]]
TState(s, A) == LET q == Mul(A, Q(s)) IN <<s[1], q[1], q[2]>>
TAll(v, p, A) == [b \in El |-> TState(v[Inv(p)[b]], A)]
Step == /\ steps < 2 /\ u' = StepOf(mesh, u) /\ uT' = StepOf(meshT, uT) /\ steps' = steps + 1
        /\ UNCHANGED <<mesh, meshT, pi, M>>
Alike == uT = TAll(u, pi, M)
(* the plane is only rotated and reflected *)
Rigid == Mul(M, <<1, 0>>)[1] * Mul(M, <<0, 1>>)[1] + Mul(M, <<1, 0>>)[2] * Mul(M, <<0, 1>>)[2] = 0
=============================================================================
