----------------------------- MODULE RoundTrip -----------------------------
(* The three file forms as grammars.  A file is a sequence of lines, a line a sequence of words (strings).  Each form has a printer
   and a parser; words after those a line needs are commentary.  Numbers are compared as words in one normal form.
   fort.14 mesh   [name, nodes: seq of <<id, x, y, z>>, elts: seq of <<id, shape, a, b, c>>, neta, open: seq of node seqs,
                   nvel, land: seq of [t, rows], ngen_nodes, gen: seq of node seqs]
   native form    [name, elts: seq of [id, n, nb, bt], nodes: seq of <<id, x, y, z>>]
   boundary lists  seq of [a: <<locality, submesh>>, b: <<locality, submesh>>, rows: seq of <<elA, elB, faceA, faceB, order>>] *)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxNum
Num == [s \in {ToString(k) : k \in 0..MaxNum} |-> CHOOSE k \in 0..MaxNum : ToString(k) = s]
W(k) == ToString(k)
IsNum(s) == s \in DOMAIN Num
(* kinds of land sections: how many words a row has; 0: not a type of the format *)
Width(t) == IF Num[t] = 77 \/ Num[t] = 88 THEN 1
            ELSE CASE Num[t] % 10 \in {0, 1, 2} -> 1 [] Num[t] % 10 = 4 -> 5 [] OTHER -> 0
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
(* ---- fort.14 ---- *)
PrintSec(ss) == LET One(s) == <<<<W(Len(s))>>>> \o Map(s, LAMBDA x : <<x>>) IN Flat(Map(ss, One))
PrintLand(ss) == LET One(s) == <<<<W(Len(s.rows)), s.t>>>> \o s.rows IN Flat(Map(ss, One))
Print14(m) == <<<<m.name>>, <<W(Len(m.elts)), W(Len(m.nodes))>>>> \o m.nodes \o m.elts
              \o <<<<W(Len(m.open))>>, <<m.neta>>>> \o PrintSec(m.open)
              \o <<<<W(Len(m.land))>>, <<m.nvel>>>> \o PrintLand(m.land)
              \o <<<<W(Len(m.gen))>>, <<m.nngn>>>> \o PrintSec(m.gen)
(* sections from line `at`: <<sections, next line>> *)
RECURSIVE Secs(_, _, _)
Secs(L, at, k) ==
    IF k = 0 THEN <<<<>>, at>>
    ELSE LET n == Num[L[at][1]]
             rest == TLCEval(Secs(L, at + 1 + n, k - 1))
         IN <<<<[i \in 1..n |-> L[at + i][1]]>> \o rest[1], rest[2]>>
RECURSIVE Lands(_, _, _)
Lands(L, at, k) ==
    IF k = 0 THEN <<<<>>, at>>
    ELSE LET n == Num[L[at][1]]
             t == L[at][2]
             rest == TLCEval(Lands(L, at + 1 + n, k - 1))
         IN <<<<[t |-> t, rows |-> [i \in 1..n |-> SubSeq(L[at + i], 1, Width(t))]]>> \o rest[1], rest[2]>>
RECURSIVE KnownTypes(_, _, _)
KnownTypes(L, at, k) == k = 0 \/ (Width(L[at][2]) > 0 /\ KnownTypes(L, at + 1 + Num[L[at][1]], k - 1))
Parse14(L) ==
    LET ne == Num[L[2][1]]  nn == Num[L[2][2]]
        o == 3 + nn + ne
        op == TLCEval(Secs(L, o + 2, Num[L[o][1]]))
        b == op[2]
        la == TLCEval(Lands(L, b + 2, Num[L[b][1]]))
        g == la[2]
        has == g <= Len(L) /\ L[g] # <<>>
    IN [name |-> L[1][1], nodes |-> [i \in 1..nn |-> SubSeq(L[2 + i], 1, 4)], elts |-> [i \in 1..ne |-> SubSeq(L[2 + nn + i], 1, 5)],
        open |-> op[1], neta |-> L[o + 1][1], land |-> la[1], nvel |-> L[b + 1][1],
        gen |-> IF has THEN Secs(L, g + 2, Num[L[g][1]])[1] ELSE <<>>,
        nngn |-> IF has THEN L[g + 1][1] ELSE "0"]
(* whether the section types of a file are ones the format has *)
Sane14(L) == LET o == 3 + Num[L[2][1]] + Num[L[2][2]]
                 b == TLCEval(Secs(L, o + 2, Num[L[o][1]]))[2] IN KnownTypes(L, b + 2, Num[L[b][1]])
(* ---- native form ---- *)
PrintM(m) == <<<<m.name>>, <<W(Len(m.elts))>>>> \o Map(m.elts, LAMBDA e : <<e.id, W(Len(e.n))>> \o e.n \o e.nb \o e.bt)
             \o <<<<W(Len(m.nodes))>>>> \o m.nodes
ParseM(L) ==
    LET ne == Num[L[2][1]]  nn == Num[L[3 + ne][1]]
        Elt(l) == LET k == Num[l[2]] IN [id |-> l[1], n |-> SubSeq(l, 3, 2 + k), nb |-> SubSeq(l, 3 + k, 2 + 2 * k), bt |-> SubSeq(l, 3 + 2 * k, 2 + 3 * k)]
    IN [name |-> L[1][1], elts |-> [i \in 1..ne |-> Elt(L[2 + i])], nodes |-> [i \in 1..nn |-> SubSeq(L[3 + ne + i], 1, 4)]]
(* ---- boundary lists ---- *)
PrintD(d) == LET One(s) == <<s.a \o s.b \o <<W(Len(s.rows))>>>> \o s.rows IN Flat(Map(d, One))
RECURSIVE ParseDAt(_, _)
ParseDAt(L, at) ==
    IF at > Len(L) \/ L[at] = <<>> THEN <<>>
    ELSE LET n == Num[L[at][5]] IN
         <<[a |-> SubSeq(L[at], 1, 2), b |-> SubSeq(L[at], 3, 4), rows |-> [i \in 1..n |-> SubSeq(L[at + i], 1, 5)]]>> \o ParseDAt(L, at + 1 + n)
ParseD(L) == ParseDAt(L, 1)
(* what the owner `me` of a list reads: its own side first *)
Seen(d, me) == LET One(s) == IF s.a = me THEN [mine |-> s.a, other |-> s.b, rows |-> s.rows]
                             ELSE [mine |-> s.b, other |-> s.a, rows |-> Map(s.rows, LAMBDA x : <<x[2], x[1], x[4], x[3], x[5]>>)]
               IN Map(d, One)
Mine(d, me) == \A i \in DOMAIN d : d[i].a = me \/ d[i].b = me
(* ---- sameness: nodes and elements may be listed in any order ---- *)
Set(s) == {s[i] : i \in DOMAIN s}
Same14(a, b) == /\ a.name = b.name /\ Len(a.nodes) = Len(b.nodes) /\ Set(a.nodes) = Set(b.nodes)
                /\ Len(a.elts) = Len(b.elts) /\ Set(a.elts) = Set(b.elts)
                /\ a.open = b.open /\ a.neta = b.neta /\ a.land = b.land /\ a.nvel = b.nvel /\ a.gen = b.gen /\ a.nngn = b.nngn
SameM(a, b) == /\ a.name = b.name /\ Len(a.nodes) = Len(b.nodes) /\ Set(a.nodes) = Set(b.nodes)
               /\ Len(a.elts) = Len(b.elts) /\ Set(a.elts) = Set(b.elts)
=============================================================================
