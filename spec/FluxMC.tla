------------------------------- MODULE FluxMC -------------------------------
(* Every pair of lattice states across every normal; the reference rule (or a defective variant) against the property. *)
EXTENDS Flux, FiniteSets, TLC
CONSTANT Defect
Us == {-10, 0, 20}
Vs == {0, 10}
Normals == {<<1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<-5, -12, 13>>, <<8, -15, 17>>}
S(b) == [c : {10, 20, 30}, b : {b}, u : Us, v : Vs, wet : {TRUE}] \cup [c : {1, 10, 20}, b : {b}, u : {0}, v : {0}, wet : {FALSE}]
VARIABLES s, t, n
Fl(a, b, m) ==
    LET f == Given(a, b, m) IN
    CASE Defect = "none" -> f
      [] Defect = "upwind" -> [f EXCEPT !.i = LLF(a, a, m, 1), !.e = LLF(b, b, Neg(m), 1)]
      [] Defect = "cross" -> [f EXCEPT !.i[3] = @ - 4 * QY(a) * a.u * m[1], !.e[3] = @ + 4 * QY(a) * a.u * m[1]]
      [] Defect = "always" -> LET g == LLF(a, b, m, 1) IN [i |-> g, e |-> Minus(g)]
      [] Defect = "oneside" -> LET g == LLF(a, b, m, 1) IN [f EXCEPT !.e = IF ~a.wet THEN Minus(g) ELSE @]
      [] Defect = "axis" -> [f EXCEPT !.i[2] = @ + 2 * Max(0, a.u) * (Z(a) - Z(b)), !.e[2] = @ - 2 * Max(0, a.u) * (Z(a) - Z(b))]
      [] Defect = "bias" -> [f EXCEPT !.i[1] = @ + 7 * Max(0, a.u) * Max(0, Z(a) - Z(b)), !.e[1] = @ - 7 * Max(0, a.u) * Max(0, Z(a) - Z(b))]
Init == \E b \in {100, -50} : s \in S(b) /\ t \in S(b) /\ n \in Normals
Next == UNCHANGED <<s, t, n>>
Spec == Init /\ [][Next]_<<s, t, n>>
F == Fl(s, t, n)
Lawful == Consistent(s, t, n, F, 0) /\ Conserves(s.wet, t.wet, F, 0) /\ DryGives(s.wet, t.wet, F, 0)
Swaps == LET G == Fl(t, s, Neg(n)) IN G.i = F.e /\ G.e = F.i
Turns == LET G == Fl(TurnS(s), TurnS(t), Turn(n)) IN G.i = TurnF(F.i) /\ G.e = TurnF(F.e)
=============================================================================
