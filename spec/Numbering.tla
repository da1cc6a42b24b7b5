------------------------------ MODULE Numbering ------------------------------
(* How hybridized discretizations number their face unknowns over submeshes and ranks: every submesh counts its own faces and the
   cut faces it owns (its place comes before the partner's), ranks shift by the totals of the ranks before them, submeshes by the
   submeshes before them, and the owner of a cut face tells the partner the number.  Shifting and telling happen in any order
   between submeshes.
   A face is numbered in blocks of one; the block size only scales the numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SUBS,      \* sequence of <<rank, place on the rank>>
          OWN,       \* faces inside each submesh
          CUTS,      \* sequence of <<a, b>>: a face between submeshes a and b (several may join the same two)
          BOTHOWN, EARLY, NOSCAN
S == DOMAIN SUBS
Less(a, b) == SUBS[a][1] < SUBS[b][1] \/ (SUBS[a][1] = SUBS[b][1] /\ SUBS[a][2] < SUBS[b][2])
Owns(s, c) == LET o == IF CUTS[c][1] = s THEN CUTS[c][2] ELSE CUTS[c][1] IN s \in {CUTS[c][1], CUTS[c][2]} /\ (BOTHOWN \/ Less(s, o))
Other(s, c) == IF CUTS[c][1] = s THEN CUTS[c][2] ELSE CUTS[c][1]
MyCuts(s) == {c \in DOMAIN CUTS : Owns(s, c)}
Count(s) == OWN[s] + Cardinality(MyCuts(s))
RECURSIVE Sum(_)
Sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Count(x) + Sum(T \ {x})
Before(s) == Sum({t \in S : IF NOSCAN THEN SUBS[t][1] < SUBS[s][1] ELSE Less(t, s)})
Total == Sum(S)
\* position of a cut among those of its owner, in file order
Pos(s, c) == OWN[s] + Cardinality({d \in MyCuts(s) : d < c})

VARIABLES num,       \* submesh -> numbers of its own faces and of its view of cut faces (key c), -1 unknown
          shifted,   \* submeshes that have added their offset
          net        \* messages <<to, cut, number>>
vars == <<num, shifted, net>>
Init == /\ num = [s \in S |-> [f \in {<<"own", i>> : i \in 1..OWN[s]} \cup {<<"cut", c>> : c \in {d \in DOMAIN CUTS : s \in {CUTS[d][1], CUTS[d][2]}}}
                               |-> IF f[1] = "own" THEN f[2] - 1 ELSE IF Owns(s, f[2]) THEN Pos(s, f[2]) ELSE -1]]
        /\ shifted = {} /\ net = {}
Shift(s) == /\ s \notin shifted /\ shifted' = shifted \cup {s}
            /\ num' = [num EXCEPT ![s] = [f \in DOMAIN num[s] |-> IF f[1] = "own" \/ Owns(s, f[2]) THEN num[s][f] + Before(s) ELSE num[s][f]]]
            /\ net' = net \cup {<<Other(s, c), c, IF EARLY THEN Pos(s, c) ELSE Pos(s, c) + Before(s)>> : c \in MyCuts(s)}
Hear(m) == /\ m \in net /\ net' = net \ {m} /\ shifted' = shifted
           /\ num' = IF Owns(m[1], m[2]) THEN num ELSE [num EXCEPT ![m[1]][<<"cut", m[2]>>] = m[3]]
Next == (\E s \in S : Shift(s)) \/ (\E m \in net : Hear(m))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == shifted = S /\ net = {}
\* the face a submesh's entry stands for
Face(s, f) == IF f[1] = "own" THEN <<s, f[2]>> ELSE <<0, f[2]>>
Entries == {<<s, f>> : s \in S, f \in UNION {DOMAIN num[t] : t \in S}}
Live == {e \in Entries : e[2] \in DOMAIN num[e[1]]}
Shared == Done => \A a, b \in Live : (Face(a[1], a[2]) = Face(b[1], b[2])) <=> (num[a[1]][a[2]] = num[b[1]][b[2]])
Cover == Done => {num[e[1]][e[2]] : e \in Live} = 0..(Total - 1)
Ends == <>Done
=============================================================================
