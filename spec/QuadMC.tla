------------------------------- MODULE QuadMC -------------------------------
(* The generator as a process: it walks the cells in any order and lays two triangles into each along the cell's diagonal, then
   writes the sides.  Whatever the order, the outcome tiles the rectangle, follows the pattern, and its lone edges are the sides.
   BUG breaks it: 1 one triangle turns the wrong way, 2 a cell of odd rows is passed over, 3 a side stops one node early. *)
EXTENDS Quad, TLC
CONSTANTS MM, NN, BUG
VARIABLES m, n, pat, todo, tri, sides
vars == <<m, n, pat, todo, tri, sides>>
Pair(i, j, d) ==
    LET a == <<i, j>> b == <<i + 1, j>> c == <<i + 1, j + 1>> e == <<i, j + 1>>
    IN IF d = 1 THEN <<IF BUG = 1 /\ i = 1 THEN <<a, e, c>> ELSE <<a, c, e>>, <<a, b, c>>>> ELSE <<<<a, b, e>>, <<b, c, e>>>>
Init == /\ m \in 1..MM /\ n \in 1..NN /\ pat \in 0..2
        /\ todo = {<<i, j>> \in Lattice(m, n) : i < m /\ j < n} /\ tri = <<>> /\ sides = <<>>
Lay(c) == /\ c \in todo /\ todo' = todo \ {c}
          /\ \A d \in todo : BUG # 9 \/ c = d
          /\ tri' = IF BUG = 2 /\ c[2] % 2 = 1 /\ c[1] = 0 THEN tri ELSE tri \o Pair(c[1], c[2], Diagonal(pat, c[1], c[2]))
          /\ UNCHANGED <<m, n, pat, sides>>
Write == /\ todo = {} /\ Len(sides) < 4
         /\ sides' = Append(sides, IF BUG = 3 /\ Len(sides) = 2 THEN Side(m, n, 3) \ {<<<<1, n>>, <<0, n>>>>} ELSE Side(m, n, Len(sides) + 1))
         /\ UNCHANGED <<m, n, pat, todo, tri>>
Next == (\E c \in todo : Lay(c)) \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count == Len(tri) = 2 * (m * n - Cardinality(todo)) \/ BUG = 2
Whole == Len(sides) = 4 => Tiles(m, n, tri) /\ Follows(pat, m, n, tri)
Lone == LET D == UNION {Dirs(tri[x]) : x \in DOMAIN tri} IN
        Len(sides) = 4 => /\ UNION {sides[s] : s \in 1..4} = {e \in D : <<e[2], e[1]>> \notin D}
                          /\ \A s, t \in 1..4 : s < t => sides[s] \cap sides[t] = {}
Ends == <>[](Len(sides) = 4)
=============================================================================
