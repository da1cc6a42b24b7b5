------------------------------- MODULE Split -------------------------------
(* A dispersive step: two operators (S shallow water over half a step, D dispersive correction over the whole step) applied in
   a word, with one clock each, counted in half steps. A word stands for a product of exponentials; the splitting is second
   order exactly if the product agrees with exp(S+D) over one step up to degree two, and a word read backwards is itself. *)
EXTENDS Integers, Sequences
Word == << [op |-> "S", h |-> 1], [op |-> "D", h |-> 2], [op |-> "S", h |-> 1] >>
RECURSIVE SumH(_, _)
SumH(w, o) == IF w = <<>> THEN 0 ELSE (IF Head(w).op = o THEN Head(w).h ELSE 0) + SumH(Tail(w), o)
(* Four times the coefficient of the product ab in the word's exponentials, in half steps squared *)
RECURSIVE Pairs(_, _, _)
Pairs(w, a, b) ==
    IF w = <<>> THEN 0
    ELSE LET x == Head(w) IN
         (IF x.op = a THEN 2 * x.h * SumH(Tail(w), b) + (IF a = b THEN x.h * x.h ELSE 0) ELSE 0) + Pairs(Tail(w), a, b)
Balanced(w) == \A o \in {"S", "D"} : SumH(w, o) = 2
SecondOrder(w) == \A a, b \in {"S", "D"} : Pairs(w, a, b) = 4
Rev(w) == [i \in DOMAIN w |-> w[Len(w) + 1 - i]]
Palindrome(w) == Rev(w) = w
RECURSIVE Rep(_, _)
Rep(w, k) == IF k = 0 THEN <<>> ELSE w \o Rep(w, k - 1)
(* Clocks after a word: [steps and time (half steps) of the first stepper, of the second] *)
Count(w, o) == Len(SelectSeq(w, LAMBDA x : x.op = o))
Clock(w) == << Count(w, "S"), SumH(w, "S"), Count(w, "D"), SumH(w, "D") >>

(* The correction itself, as a rate at a point. Fields are quadratic or cubic polynomials of the scaled position (s, t) in 0..1,
   all numbers in units of 1/F. The water depth h is linear, so the bed rises by -grad h. The correction adds
   alpha h T(V) - Q(U) where w = h V is the dispersive trace (no flow through walls) and u = U the velocity. *)
F == 10000
Mul(a, b) == LET bh == b \div 100  bl == b % 100 IN (a * bh + (a * bl) \div 100) \div 100
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN F ELSE Mul(x, Pow(x, n - 1))
(* polynomials: sequences of [i, j, c] *)
RECURSIVE Ev(_, _, _)
Ev(p, s, t) == IF p = <<>> THEN 0 ELSE LET m == Head(p) IN Mul(m.c, Mul(Pow(s, m.i), Pow(t, m.j))) + Ev(Tail(p), s, t)
D1(p) == LET d == SelectSeq(p, LAMBDA m : m.i > 0) IN [k \in DOMAIN d |-> [i |-> d[k].i - 1, j |-> d[k].j, c |-> d[k].i * d[k].c]]
D2(p) == LET d == SelectSeq(p, LAMBDA m : m.j > 0) IN [k \in DOMAIN d |-> [i |-> d[k].i, j |-> d[k].j - 1, c |-> d[k].j * d[k].c]]
(* values and derivatives of a vector field at a point *)
Jet(X, s, t) ==
    [v |-> <<Ev(X[1], s, t), Ev(X[2], s, t)>>,
     d |-> << <<Ev(D1(X[1]), s, t), Ev(D2(X[1]), s, t)>>, <<Ev(D1(X[2]), s, t), Ev(D2(X[2]), s, t)>> >>,
     dd |-> << << <<Ev(D1(D1(X[1])), s, t), Ev(D1(D2(X[1])), s, t)>>, <<Ev(D2(D1(X[1])), s, t), Ev(D2(D2(X[1])), s, t)>> >>,
               << <<Ev(D1(D1(X[2])), s, t), Ev(D1(D2(X[2])), s, t)>>, <<Ev(D2(D1(X[2])), s, t), Ev(D2(D2(X[2])), s, t)>> >> >>]
Third(a) == a \div 3
(* h T(V), component k: -1/3 d_k(h^3 div V) + 1/2 [d_k(h^2 b.V) - h^2 b_k div V] + h b_k (b.V), with b = -grad h constant *)
HT(V, h, b, k) ==
    LET h2 == Mul(h, h)  h3 == Mul(h2, h)
        div == V.d[1][1] + V.d[2][2]
        ddiv == V.dd[1][1][k] + V.dd[2][2][k]
        bV == Mul(b[1], V.v[1]) + Mul(b[2], V.v[2])
        dbV == Mul(b[1], V.d[1][k]) + Mul(b[2], V.d[2][k])
    IN - Third(Mul(h3, ddiv) - 3 * Mul(Mul(h2, b[k]), div))
       + (Mul(h2, dbV) - 2 * Mul(Mul(h, b[k]), bV) - Mul(Mul(h2, b[k]), div)) \div 2
       + Mul(Mul(h, b[k]), bV)
(* Q(U), component k, over a plane bed: 2/3 d_k(h^3 c) + h^2 b_k c with c = v_x u_y + u_x^2 + u_x v_y + v_y^2 *)
CC(U) == Mul(U.d[2][1], U.d[1][2]) + Mul(U.d[1][1], U.d[1][1]) + Mul(U.d[1][1], U.d[2][2]) + Mul(U.d[2][2], U.d[2][2])
DC(U, k) == Mul(U.dd[2][1][k], U.d[1][2]) + Mul(U.d[2][1], U.dd[1][2][k]) + 2 * Mul(U.d[1][1], U.dd[1][1][k])
            + Mul(U.dd[1][1][k], U.d[2][2]) + Mul(U.d[1][1], U.dd[2][2][k]) + 2 * Mul(U.d[2][2], U.dd[2][2][k])
QQ(U, h, b, k) ==
    LET h2 == Mul(h, h) IN
    2 * Third(Mul(Mul(h2, h), DC(U, k)) - 3 * Mul(Mul(h2, b[k]), CC(U))) + Mul(Mul(h2, b[k]), CC(U))
Alpha == 11590
Rate(V, U, h, b, k) == Mul(Alpha, HT(V, h, b, k)) - QQ(U, h, b, k)
=============================================================================
