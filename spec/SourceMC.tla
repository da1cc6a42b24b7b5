------------------------------ MODULE SourceMC ------------------------------
(* Every friction case of a lattice and every bed of a lattice: the law (or a defective one) against what it is for. *)
EXTENDS Source, TLC
CONSTANT Defect
Dirs == {<<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-8, -15, 17>>, <<1, 0, 1>>, <<0, -1, 1>>}
Cases == [dir : Dirs, s : {0, 3, 10, 20}, rt : {1, 2, 3, 4}, law : {"chezy", "manning"}, cf : {0, 25, 100}, n : {<<20, 20, 20>>, <<10, 30, 50>>}, g : {98, 100}]
Mk(y) == [a |-> y.dir[1], b |-> y.dir[2], e |-> y.dir[3], s |-> y.s, rt |-> y.rt, law |-> y.law, cf |-> y.cf, n |-> y.n, g |-> y.g]
Nodes == {<<0, 0>>, <<6, 2>>, <<1, 7>>}
VARIABLES what, x, nd
F(y) ==
    CASE Defect = "push" -> <<-Friction(y)[1], -Friction(y)[2]>>
      [] Defect = "axis" -> LET f == Friction(y) IN <<RDiv(f[1] * Abs(y.a), y.e), RDiv(f[2] * Abs(y.b), y.e)>>
      [] Defect = "deep" -> Friction([y EXCEPT !.rt = 5 - @])
      [] Defect = "nolimit" -> Friction(IF y.law = "manning" THEN [y EXCEPT !.cf = 0] ELSE y)
      [] Defect = "sum" -> IF y.law = "chezy" THEN Friction(y) ELSE
                           LET z == Friction([y EXCEPT !.cf = 0]) w == Friction([y EXCEPT !.law = "chezy"]) IN <<z[1] + w[1], z[2] + w[2]>>
      [] Defect = "node" -> Friction([y EXCEPT !.n = <<@[1], @[1], @[1]>>])
      [] Defect = "still" -> LET f == Friction(y) IN <<f[1] - 3, f[2]>>
      [] OTHER -> Friction(y)
Init == \/ what = "f" /\ x \in {Mk(y) : y \in Cases} /\ nd = <<>>
        \/ what = "s" /\ x = <<>> /\ nd \in {<<<<0, 0, b[1], z[1]>>, <<6, 2, b[2], z[2]>>, <<1, 7, b[3], z[3]>>>> :
                                              b \in [1..3 -> {100, 250, 400}], z \in [1..3 -> {-30, 0, 50}]}
Next == UNCHANGED <<what, x, nd>>
Spec == Init /\ [][Next]_<<what, x, nd>>
Fr == F(x)
Opposes == what = "f" => Fr[1] * x.a <= 0 /\ Fr[2] * x.b <= 0
Parallel == what = "f" => Abs(Fr[1] * x.b - Fr[2] * x.a) <= 3 * (Abs(x.a) + Abs(x.b))
Still == (what = "f" /\ x.s = 0) => Fr = <<0, 0>>
Grows == what = "f" => LET y == F([x EXCEPT !.s = @ + 5]) IN Abs(y[1]) >= Abs(Fr[1]) /\ Abs(y[2]) >= Abs(Fr[2])
ShallowMore == (what = "f" /\ x.rt > 1) => LET y == F([x EXCEPT !.rt = @ - 1]) IN Abs(y[1]) >= Abs(Fr[1]) /\ Abs(y[2]) >= Abs(Fr[2])
AtLeast == what = "f" => LET y == F([x EXCEPT !.law = "chezy"]) IN Abs(Fr[1]) >= Abs(y[1]) /\ Abs(Fr[2]) >= Abs(y[2])
EqualsLimit == (what = "f" /\ x.cf = 100 /\ x.n = <<20, 20, 20>> /\ x.rt = 4) => Fr = F([x EXCEPT !.law = "chezy"])
NodesAlike == what = "f" => Fr = F([x EXCEPT !.n = <<@[3], @[1], @[2]>>])
Turned == what = "f" => LET y == F([x EXCEPT !.a = -x.b, !.b = x.a]) IN y = <<-Fr[2], Fr[1]>>
Sl(k) == Slope(nd, k)
(* a flat bed or a zero level gives nothing; the order of the nodes does not matter; deeper in x pushes towards x *)
SlopeOK == what = "s" =>
    /\ (nd[1][3] = nd[2][3] /\ nd[2][3] = nd[3][3] => Sl(98) = <<0, 0>>)
    /\ (nd[1][4] + nd[2][4] + nd[3][4] = 0 => Sl(98) = <<0, 0>>)
    /\ Slope(<<nd[2], nd[3], nd[1]>>, 98) = Sl(98)
    /\ (nd[1][4] > 0 /\ nd[2][4] > 0 /\ nd[3][4] > 0 /\ nd[2][3] > nd[1][3] /\ nd[2][3] > nd[3][3] => Sl(98)[1] > 0)
=============================================================================
