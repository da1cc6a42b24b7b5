-------------------------------- MODULE Poly --------------------------------
(* Polynomials on a triangle in Bernstein form, with integer coefficients, and their exact integrals, products, derivatives,
   values and edge traces.  A polynomial of degree n is a sequence of (n+1)(n+2)/2 coefficients; the coefficient of
   L0^a L1^b L2^c (times the multinomial number), a + b + c = n, stands at position (b+c)(b+c+1)/2 + c + 1.
   A triangle is <<x0, y0, x1, y1, x2, y2>>, counter-clockwise.  Results are numerators; the denominators are stated. *)
EXTENDS Integers, Sequences, FiniteSetsExt, Functions
MaxDeg == 20
Len3(n) == ((n + 1) * (n + 2)) \div 2
Pos3(b, c) == ((b + c) * (b + c + 1)) \div 2 + c + 1
(* multi-indices by position, shared by all degrees: <<b, c>> *)
IdxTab == [p \in 1..Len3(MaxDeg) |-> CHOOSE x \in {<<s, c>> : s \in 0..MaxDeg, c \in 0..MaxDeg} :
             x[2] <= x[1] /\ (x[1] * (x[1] + 1)) \div 2 + x[2] + 1 = p]
Ix(n, p) == <<n - IdxTab[p][1], IdxTab[p][1] - IdxTab[p][2], IdxTab[p][2]>>
Binom == LET B[n \in 0..MaxDeg] == [k \in 0..MaxDeg |-> IF k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE B[n-1][k-1] + B[n-1][k]] IN B
RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n - 1)
Total(s) == SumSeq(s, Len(s))
Deg(f) == CHOOSE n \in 0..MaxDeg : Len3(n) = Len(f)
Area2(T) == (T[3] - T[1]) * (T[6] - T[2]) - (T[5] - T[1]) * (T[4] - T[2])
(* integral over the triangle: Area2 * Integ(f) / ((n+1)(n+2)) *)
Integ(f) == Total(f)
(* product: denominator C(n+m, n) *)
Mul(f, g) ==
    LET n == Deg(f)  m == Deg(g) IN
    [p \in 1..Len3(n + m) |->
        LET z == Ix(n + m, p)
            sub == {i \in 1..Len3(n) : LET x == Ix(n, i) IN x[1] <= z[1] /\ x[2] <= z[2] /\ x[3] <= z[3]}
        IN MapThenSumSet(LAMBDA i : LET x == Ix(n, i) IN
               IF f[i] = 0 THEN 0
               ELSE Binom[z[1]][x[1]] * Binom[z[2]][x[2]] * Binom[z[3]][x[3]] * f[i] * g[Pos3(z[2] - x[2], z[3] - x[3])], sub)]
MulDen(f, g) == Binom[Deg(f) + Deg(g)][Deg(f)]
(* gradient of the barycentric coordinate i (0..2) in direction d (1: x, 2: y), times Area2 *)
X(T, i) == T[2 * (i % 3) + 1]
Y(T, i) == T[2 * (i % 3) + 2]
Grad(T, i, d) == IF d = 1 THEN Y(T, i + 1) - Y(T, i + 2) ELSE X(T, i + 2) - X(T, i + 1)
(* derivative: denominator Area2; a constant has the zero derivative, of degree 0 *)
Der(f, d, T) ==
    LET n == Deg(f) IN
    IF n = 0 THEN <<0>>
    ELSE [p \in 1..Len3(n - 1) |->
            LET z == Ix(n - 1, p) IN
            n * (Grad(T, 0, d) * f[Pos3(z[2], z[3])] + Grad(T, 1, d) * f[Pos3(z[2] + 1, z[3])] + Grad(T, 2, d) * f[Pos3(z[2], z[3] + 1)])]
(* trace on the edge opposite node k, from node k+1 to node k+2: 1-D Bernstein coefficients *)
Edge(f, k) ==
    LET n == Deg(f) IN
    [j \in 1..(n + 1) |->
        LET a == [i \in 0..2 |-> IF i = k THEN 0 ELSE IF i = (k + 1) % 3 THEN n + 1 - j ELSE j - 1] IN f[Pos3(a[1], a[2])]]
Flip(e) == [j \in DOMAIN e |-> e[Len(e) + 1 - j]]
(* product on an edge: denominator C(n+m, n); integral over the edge: length * Total / (degree + 1) *)
Mul1(e, h) ==
    LET n == Len(e) - 1  m == Len(h) - 1 IN
    [j \in 1..(n + m + 1) |->
        MapThenSumSet(LAMBDA i : Binom[j - 1][i] * Binom[n + m + 1 - j][n - i] * e[i + 1] * h[j - i],
                      {i \in 0..n : j - 1 - i \in 0..m})]
Mul1Den(e, h) == Binom[Len(e) + Len(h) - 2][Len(e) - 1]
Integ1(e) == Total(e)
(* length times the outward normal of edge k *)
Normal(T, k, d) == IF d = 1 THEN Y(T, k + 2) - Y(T, k + 1) ELSE X(T, k + 1) - X(T, k + 2)
(* value at the point with barycentric coordinates <<l0, l1, l2>> / N: denominator N^n *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Value(f, l) ==
    LET n == Deg(f) IN
    MapThenSumSet(LAMBDA p : LET z == Ix(n, p) IN
        IF f[p] = 0 THEN 0
        ELSE Binom[n][z[2] + z[3]] * Binom[z[2] + z[3]][z[3]] * Pow(l[1], z[1]) * Pow(l[2], z[2]) * Pow(l[3], z[3]) * f[p], 1..Len(f))
(* the same polynomial written with degree n + 1: denominator n + 1 *)
Elevate(f) ==
    LET n == Deg(f) IN
    [p \in 1..Len3(n + 1) |->
        LET z == Ix(n + 1, p) IN
        (IF z[1] > 0 THEN z[1] * f[Pos3(z[2], z[3])] ELSE 0) + (IF z[2] > 0 THEN z[2] * f[Pos3(z[2] - 1, z[3])] ELSE 0)
        + (IF z[3] > 0 THEN z[3] * f[Pos3(z[2], z[3] - 1)] ELSE 0)]
(* linear function with value v[i] at node i-1 *)
Linear(v) == v
(* corner values of the best linear approximation in the mean-square sense: denominator (n+1)(n+2)(n+3) *)
Lam(i) == [j \in 1..3 |-> IF j = i THEN 1 ELSE 0]
Moment(f, i) == LET n == Deg(f) IN MapThenSumSet(LAMBDA p : (Ix(n, p)[i] + 1) * f[p], 1..Len(f))
BestLinear(f) == LET M == [i \in 1..3 |-> Moment(f, i)] IN [i \in 1..3 |-> 24 * M[i] - 6 * (M[1] + M[2] + M[3])]
BestLinearDen(f) == (Deg(f) + 1) * (Deg(f) + 2) * (Deg(f) + 3)
=============================================================================
