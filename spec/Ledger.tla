------------------------------- MODULE Ledger -------------------------------
(* The water balance of a mesh.  Cells hold an amount of water; a face moves
   water between the two cells it joins; a wall moves nothing.  With wetting
   and drying a cell left with less than the film is filled up to the film,
   and that is the only way water may appear.  Amounts are integers.
   The same transition (After) is the model explored by TLC below and the
   judge of steps recorded from the real program (LedgerTrace). *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i-1)

(* faces: sequence of [a, b, out]: out leaves cell a and enters cell b *)
Outflow(faces, c) == SumOver([k \in 1..Len(faces) |-> IF faces[k].a = c THEN faces[k].out
                                                     ELSE IF faces[k].b = c THEN -faces[k].out ELSE 0], 1..Len(faces))
Fill(v, film) == IF v < film THEN film - v ELSE 0
After(v, faces, film, c) == LET w == v[c] - Outflow(faces, c) IN w + Fill(w, film[c])

CONSTANTS Cells, Joins, MaxVol, MaxFlux, Film, WetDry
VARIABLES vol, start, added
vars == <<vol, start, added>>
films == [c \in Cells |-> IF WetDry THEN Film ELSE -1000]
Init == /\ vol \in [Cells -> 0..MaxVol] /\ start = SumOver(vol, Cells) /\ added = 0
Next == \E f \in [1..Len(Joins) -> (-MaxFlux)..MaxFlux] :
          LET faces == [k \in 1..Len(Joins) |-> [a |-> Joins[k][1], b |-> Joins[k][2], out |-> f[k]]]
              w == [c \in Cells |-> vol[c] - Outflow(faces, c)]
          IN /\ \A c \in Cells : w[c] \in -MaxVol..2*MaxVol
             /\ vol' = [c \in Cells |-> After(vol, faces, films, c)]
             /\ added' = added + SumOver([c \in Cells |-> Fill(w[c], films[c])], Cells)
             /\ added' < 8
             /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
Conserved == SumOver(vol, Cells) = start + added
NothingLost == added >= 0 /\ (~WetDry => added = 0)
FilmKept == WetDry => (vol = [c \in Cells |-> vol[c]] /\ \A c \in Cells : vol[c] >= 0)
=============================================================================
