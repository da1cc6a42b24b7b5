-------------------------------- MODULE Quad --------------------------------
(* What the quadrilateral mesh generator is asked for, and what a mesh that answers it is.
   Node <<i, j>> of the lattice (0 <= i <= m, 0 <= j <= n) lies at the bilinear image of the corners p1..p4; positions are kept
   multiplied by m * n so that they are integers when the corners are. *)
EXTENDS Integers, Sequences, FiniteSets

Lattice(m, n) == (0..m) \X (0..n)
Bil(q, m, n, l, d) ==
    (m - l[1]) * (n - l[2]) * q[1][d] + l[1] * (n - l[2]) * q[2][d] + l[1] * l[2] * q[3][d] + (m - l[1]) * l[2] * q[4][d]

\* the four sides as steps between neighbouring lattice points, with the inside on the left
Side(m, n, s) ==
    CASE s = 1 -> {<<<<i, 0>>, <<i + 1, 0>>>> : i \in 0..(m - 1)}
      [] s = 2 -> {<<<<m, j>>, <<m, j + 1>>>> : j \in 0..(n - 1)}
      [] s = 3 -> {<<<<i + 1, n>>, <<i, n>>>> : i \in 0..(m - 1)}
      [] s = 4 -> {<<<<0, j + 1>>, <<0, j>>>> : j \in 0..(n - 1)}
Rim(m, n) == UNION {Side(m, n, s) : s \in 1..4}

\* triangles are triples of lattice points
Dirs(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Turn(t) == (t[2][1] - t[1][1]) * (t[3][2] - t[1][2]) - (t[3][1] - t[1][1]) * (t[2][2] - t[1][2])
\* T (a sequence) covers the lattice rectangle exactly once: every triangle turns left, no directed edge twice, and what has no
\* counterpart is the rim.  (The sum of positively oriented cells with the rectangle's boundary covers it once.)
Tiles(m, n, T) ==
    /\ \A x \in DOMAIN T : Turn(T[x]) > 0
    /\ \A x, y \in DOMAIN T : x < y => Dirs(T[x]) \cap Dirs(T[y]) = {}
    /\ LET D == UNION {Dirs(T[x]) : x \in DOMAIN T}
       IN {e \in D : <<e[2], e[1]>> \notin D} = Rim(m, n)

\* which diagonal a cell is cut along: 1 rises, 0 falls
Diagonal(pat, i, j) ==
    CASE pat = 0 -> 1
      [] pat = 1 -> (j + 1) % 2
      [] pat = 2 -> (i + j + 1) % 2
Cut(i, j, d) == IF d = 1 THEN {<<i, j>>, <<i + 1, j + 1>>} ELSE {<<i + 1, j>>, <<i, j + 1>>}
Follows(pat, m, n, T) ==
    LET E == UNION {{{e[1], e[2]} : e \in Dirs(T[x])} : x \in DOMAIN T}
    IN \A i \in 0..(m - 1) : \A j \in 0..(n - 1) : Cut(i, j, Diagonal(pat, i, j)) \in E
=============================================================================
