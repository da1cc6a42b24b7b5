---------------------------- MODULE RoundTripMC ----------------------------
(* A mesh goes through files again and again: it is read, written in the writer's own order, or retouched by hand in ways that do
   not change its meaning (commentary, an empty generic section cut off, trailing blank line).  The mesh read is always the same,
   the file never runs on past two generations.
   BUG breaks a writer: 1 back nodes of levees, 2 rows of open sections, 3 type numbers, 4 the generic section, 5 sections in one;
       6 a reader that takes commentary for a word of the next line's count. *)
EXTENDS RoundTrip
CONSTANTS BUG
VARIABLES form, start, file, mem, gens
vars == <<form, start, file, mem, gens>>
N4 == {<<"7", "0", "-1.5", "2">>, <<"9", "1e-12", "3", "-4">>}
SecsOf == {<<>>, <<<<"7", "9">>>>, <<<<"9">>, <<"7", "9", "7">>>>, <<<<>>>>}
LandsOf == {<<>>, <<[t |-> "24", rows |-> <<<<"7", "9", "1.5", "1", "1">>, <<"9", "7", "2", "1", "1">>>>]>>}
           \cup {<<[t |-> a, rows |-> <<<<"7">>, <<"9">>>>], [t |-> b, rows |-> <<<<"9">>>>]>> : a \in {"0", "11", "52"}, b \in {"77", "88", "1"}}
           \cup {<<[t |-> "2", rows |-> <<<<"9">>>>], [t |-> "4", rows |-> <<<<"7", "9", "1", "1", "0.5">>>>], [t |-> "0", rows |-> <<>>]>>}
Mesh14 == {[name |-> "m", nodes |-> <<<<"7", "0", "-1.5", "2">>, <<"9", "1e-12", "3", "-4">>>>, elts |-> <<<<"3", "3", "7", "9", "7">>>>,
            open |-> o, neta |-> "5", land |-> l, nvel |-> "6", gen |-> g, nngn |-> IF g = <<>> THEN "0" ELSE "3"] : o \in SecsOf, l \in LandsOf, g \in SecsOf}
MeshM == {[name |-> "m", elts |-> <<[id |-> "4", n |-> <<"7", "9", "7">>, nb |-> <<"4294967295", "8", "2">>, bt |-> b]>> \o e, nodes |-> n] :
          b \in {<<"0", "128", "193">>, <<"1", "129", "2">>}, e \in {<<>>, <<[id |-> "8", n |-> <<"1", "2", "3", "4">>, nb |-> <<"4", "4", "4", "4">>, bt |-> <<"0", "0", "0", "192">>]>>},
          n \in {<<>>, <<<<"7", "0", "-1.5", "2">>, <<"9", "1e-12", "3", "-4">>>>}}
Me == <<"1", "0">>
ListsD == {d \in UNION {[1..k -> {[a |-> Me, b |-> <<"2", "0">>, rows |-> <<<<"4", "8", "0", "2", "1">>, <<"5", "9", "1", "1", "1">>>>],
                                   [a |-> <<"0", "3">>, b |-> Me, rows |-> <<<<"4", "8", "0", "2", "1">>>>],
                                   [a |-> <<"1", "1">>, b |-> Me, rows |-> <<>>]}] : k \in 0..3} : TRUE}
Same(f, a, b) == CASE f = "14" -> Same14(a, b) [] f = "M" -> SameM(a, b) [] OTHER -> a = b
Spoil(m) == CASE BUG = 1 -> [m EXCEPT !.land = Map(m.land, LAMBDA s : IF Width(s.t) = 5 THEN [s EXCEPT !.rows = Map(s.rows, LAMBDA x : <<x[1], x[1]>> \o SubSeq(x, 3, 5))] ELSE s)]
             [] BUG = 2 -> [m EXCEPT !.open = Map(m.open, LAMBDA s : IF s = <<>> THEN s ELSE Tail(s))]
             [] BUG = 3 -> [m EXCEPT !.land = Map(m.land, LAMBDA s : [s EXCEPT !.t = IF s.t = "52" THEN "2" ELSE s.t])]
             [] BUG = 4 -> [m EXCEPT !.gen = <<>>]
             [] BUG = 5 -> [m EXCEPT !.open = IF Len(m.open) = 2 THEN <<m.open[1] \o m.open[2]>> ELSE m.open]
             [] OTHER -> m
(* the writer lists nodes and elements in an order of its own *)
Turn(s) == IF Len(s) = 2 THEN <<s[2], s[1]>> ELSE s
Text(f, m) == CASE f = "14" -> Print14([Spoil(m) EXCEPT !.nodes = Turn(m.nodes), !.elts = Turn(m.elts)])
                 [] f = "M" -> PrintM([m EXCEPT !.nodes = Turn(m.nodes), !.elts = Turn(m.elts)]) [] OTHER -> PrintD(m)
Parse(f, L) == CASE f = "14" -> Parse14(L) [] f = "M" -> ParseM(L) [] OTHER -> ParseD(L)
Init == /\ form \in {"14", "M", "D"}
        /\ start \in CASE form = "14" -> Mesh14 [] form = "M" -> MeshM [] OTHER -> ListsD
        /\ file = CASE form = "14" -> Print14(start) [] form = "M" -> PrintM(start) [] OTHER -> PrintD(start)
        /\ mem = <<>> /\ gens = 0
Read == mem = <<>> /\ mem' = <<Parse(form, file)>> /\ UNCHANGED <<form, start, file, gens>>
Write == mem # <<>> /\ gens < 2 /\ file' = Text(form, mem[1]) /\ mem' = <<>> /\ gens' = gens + 1 /\ UNCHANGED <<form, start>>
(* by hand: commentary on lines whose words are counted, the empty generic section cut off, a blank line at the end *)
Comment == LET C == [i \in DOMAIN file |-> IF i > 1 /\ form # "D" /\ Len(file[i]) <= 2 THEN file[i] \o <<"=", "number">> ELSE file[i]]
           IN mem = <<>> /\ gens = 0 /\ file' = C /\ gens' = 1 /\ UNCHANGED <<form, start, mem>>
CutOff == /\ mem = <<>> /\ gens = 0 /\ form = "14" /\ start.gen = <<>> /\ gens' = 1
          /\ \E tail \in {<<>>, <<<<>>>>} : file' = SubSeq(file, 1, Len(file) - 2) \o tail
          /\ UNCHANGED <<form, start, mem>>
Next == Read \/ Write \/ Comment \/ CutOff
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept == mem # <<>> => Same(form, mem[1], start)
Typed == form = "14" => Sane14(file)
TwoSides == (form = "D" /\ mem # <<>>) => \A me \in {Me} : Mine(mem[1], me) /\ \A i \in DOMAIN mem[1] : Seen(mem[1], me)[i].mine = me
Ends == <>[](gens > 0 /\ mem # <<>>)
=============================================================================
