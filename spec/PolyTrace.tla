------------------------------ MODULE PolyTrace ------------------------------
(* What the program's quadrature rules (Q), bases (B) and elements (E) make of polynomials, against the exact algebra.
   A measured number x is given with a denominator d as [d, i, f]: x * d = i + f * 1e-9 (1e-13 for rules and bases). *)
EXTENDS Poly, TLC, Json, IOUtils
CONSTANTS TolQ, TolB, TolE
VARIABLES what, r
XQ == ndJsonDeserialize(IOEnv.XQ)
XB == ndJsonDeserialize(IOEnv.XB)
XE == ndJsonDeserialize(IOEnv.XE)
Init == \/ what = "q" /\ r \in DOMAIN XQ
        \/ what = "b" /\ r \in DOMAIN XB
        \/ what = "e" /\ r \in DOMAIN XE
Next == UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_<<what, r>>
Tol == IF what = "q" THEN TolQ ELSE IF what = "b" THEN TolB ELSE TolE
Abs(x) == IF x < 0 THEN -x ELSE x
Is(v, num, den) == v.d = den /\ v.i = num /\ Abs(v.f) <= Tol
All(s, num(_), den) == \A i \in DOMAIN s : Is(s[i], num(i), den)
Tiny(s) == \A i \in DOMAIN s : s[i].d = 1 /\ s[i].i = 0 /\ Abs(s[i].f) <= Tol
(* the quadrature rules integrate every polynomial up to their degree: reference triangle of area 2, reference interval [-1, 1] *)
Ref == <<-1, -1, 1, -1, -1, 1>>
Quadrature == what = "q" =>
    LET x == XQ[r] IN
    /\ x.ngp = x.size
    /\ Len(x.v) = IF x.dim = 2 THEN Len3(x.p) ELSE x.p + 1
    /\ All(x.v, LAMBDA i : IF x.dim = 2 THEN Area2(Ref) ELSE 2, IF x.dim = 2 THEN (x.p + 1) * (x.p + 2) ELSE x.p + 1)
(* the bases are orthogonal with the inverse masses they state, and as many as the polynomials *)
Identity(s, n) == Len(s) = n * n /\ \A i \in 0..(n - 1), j \in 0..(n - 1) : Is(s[n * i + j + 1], IF i = j THEN 1 ELSE 0, 1)
Orthogonal == what = "b" => /\ Identity(XB[r].gram, XB[r].p + 1)
                            /\ Identity(XB[r].gram2, Len3(XB[r].p))
                            /\ Tiny(XB[r].minvoff)
E == XE[r]
T == E.t
A == Area2(T)
U == LET P == <<X(T, E.k + 2), Y(T, E.k + 2), X(T, E.k + 1), Y(T, E.k + 1), E.ax, E.ay>>
     IN [j \in 1..6 |-> P[((j - 1 + 2 * E.rot) % 6) + 1]]
kU == (2 - E.rot + 3) % 3
nf == Deg(E.f)
ng == Deg(E.g)
nw == Deg(E.w)
lin == <<E.w[1], IF Len(E.w) >= 3 THEN E.w[2] ELSE E.w[1], IF Len(E.w) >= 3 THEN E.w[3] ELSE E.w[1]>>
D2(n, m) == Binom[n + m][n]
D3(n, m, l) == Binom[n + m][n] * Binom[n + m + l][l]
N2(n) == (n + 1) * (n + 2)
WellPosed == what = "e" => A > 0 /\ Area2(U) > 0 /\ nf <= E.p /\ ng <= E.p /\ nf + ng + nw <= 2 * E.p
Reproduces == what = "e" => /\ Tiny(E.repr) /\ Tiny(E.proj) /\ Tiny(E.minv) /\ Tiny(E.high)
                            /\ Len(E.high) = Len3(E.p) - Len3(nf)
Integrates == what = "e" =>
    /\ Is(E.int[1], A * Integ(E.w), N2(nw))
    /\ LET h == A * Integ(Mul(E.f, E.w)) IN All(E.phi, LAMBDA i : h, D2(nf, nw) * N2(nf + nw))
    /\ Is(E.phiphi[1], A * Integ(Mul(Mul(E.f, E.g), E.w)), D3(nf, ng, nw) * N2(nf + ng + nw))
    /\ ng = nf => Is(E.l2[1], A * (Integ(Mul(E.f, E.f)) - 2 * Integ(Mul(E.f, E.g)) + Integ(Mul(E.g, E.g))), D2(nf, nf) * N2(2 * nf))
Differentiates == what = "e" =>
    /\ nf > 0 => \A d \in 1..2 :
         LET h == Integ(Mul(Der(E.f, d, T), E.w))  q == D2(nf - 1, nw) * N2(nf - 1 + nw) IN
         Is(E.dphi[d], h, q) /\ Is(E.dphi[d + 2], h, q) /\ Is(E.du[d], h, q)
    /\ nf = 0 => Tiny(E.du) /\ Tiny(E.dphi)
    /\ ng > 0 => \A d \in 1..2 : Is(E.phidphi[d], Integ(Mul(Mul(E.f, Der(E.g, d, T)), E.w)), D3(nf, ng - 1, nw) * N2(nf + ng - 1 + nw))
    /\ ng = 0 => Tiny(E.phidphi)
    /\ \A d \in 1..2, i \in 1..3 : Is(E.dvert[3 * (d - 1) + i], Value(Der(E.f, d, Ref), Lam(i)), Area2(Ref))
Pts == <<<<0,0,3>>, <<0,1,2>>, <<0,2,1>>, <<0,3,0>>, <<1,0,2>>, <<1,1,1>>, <<1,2,0>>, <<2,0,1>>, <<2,1,0>>, <<3,0,0>>>>
Evaluates == what = "e" => /\ Len(E.survey) = 10 /\ All(E.survey, LAMBDA i : Value(E.f, Pts[i]), Pow(3, nf))
                           /\ Tiny(E.vtk) /\ Is(E.vtkarea[1], A, 1)
LinearForms == what = "e" =>
    /\ All(E.lin, LAMBDA i : BestLinear(E.f)[i], BestLinearDen(E.f))
    /\ Tiny(E.linnode) /\ Tiny(E.linlin) /\ Tiny(E.lingp)
    /\ Is(E.linint[1], A * Integ(Mul(lin, E.f)), D2(1, nf) * N2(nf + 1))
    /\ All(E.lindx, LAMBDA i : Der(lin, 1, T)[1], A) /\ All(E.lindy, LAMBDA i : Der(lin, 2, T)[1], A)
    /\ Is(E.lincentre[1], Total(lin), 3)
    /\ All(E.linmid, LAMBDA i : Total(lin) - lin[i], 2) /\ Len(E.linmid) = 3
    /\ All(E.linvert, LAMBDA i : lin[i], 1)
L2(k) == Normal(T, k, 1) * Normal(T, k, 1) + Normal(T, k, 2) * Normal(T, k, 2)
Shape == what = "e" =>
    /\ Is(E.area[1], A, 2)
    /\ \A d \in 1..2 : Is(E.centre[d], T[d] + T[d + 2] + T[d + 4], 3)
    /\ \A k \in 0..2 : /\ Is(E.mids[2 * k + 1], X(T, k + 1) + X(T, k + 2), 2)
                       /\ Is(E.mids[2 * k + 2], Y(T, k + 1) + Y(T, k + 2), 2)
                       /\ Is(E.len2[k + 1], L2(k), 1)
    /\ Is(E.radius2[1], L2(0) * L2(1) * L2(2), 4 * A * A)
    /\ E.inside = <<1, 0, 0, 1, 0, 0, 1, 0, 0>>
(* faces: the integrals are taken along the edge, in the direction of the outward normal *)
OnEdge(s, e, den) == \A k \in 0..2, d \in 1..2 : Is(s[2 * k + d], Normal(T, k, d) * Integ1(e[k]), den)
Boundaries == what = "e" =>
    LET fw == [k \in 0..2 |-> Mul1(Edge(E.f, k), Edge(E.w, k))]
        fgw == [k \in 0..2 |-> Mul1(Mul1(Edge(E.f, k), Edge(E.g, k)), Edge(E.w, k))]
        lf == [k \in 0..2 |-> Mul1(Edge(lin, k), Edge(E.f, k))]
        q2 == D2(nf, nw) * (nf + nw + 1)  q3 == D3(nf, ng, nw) * (nf + ng + nw + 1)
    IN /\ OnEdge(E.b_int, fw, q2) /\ OnEdge(E.b_phi, fw, q2) /\ OnEdge(E.b_phim, fw, q2) /\ OnEdge(E.b_lam, fw, q2)
       /\ OnEdge(E.b_phiphi, fgw, q3) /\ OnEdge(E.b_philam, fgw, q3) /\ OnEdge(E.b_lamlam, fgw, q3)
       /\ OnEdge(E.b_nodal, lf, (nf + 1) * (nf + 2))
       /\ Tiny(E.b_res) /\ Len(E.b_res) = 3
       /\ E.b_nodes = <<1, 2, 2, 0, 0, 1>>
Interfaces == what = "e" =>
    LET ef == Edge(E.f, E.k)  eg == Flip(Edge(E.g, kU))  ew == Edge(E.w, E.k)
        fgw == Integ1(Mul1(Mul1(ef, eg), ew))  ffw == Integ1(Mul1(Mul1(ef, ef), ew))  ggw == Integ1(Mul1(Mul1(eg, eg), ew))
        q3 == D3(nf, ng, nw) * (nf + ng + nw + 1)
    IN /\ \A d \in 1..2 :
            LET n == Normal(T, E.k, d) IN
            /\ Is(E.i_in[d], n * fgw, q3) /\ Is(E.i_ex[d], n * fgw, q3)
            /\ \A j \in 0..7 : Is(E.i_phi[2 * j + d], n * fgw, q3)
            /\ Len(E.i_phi) = 16
            /\ 2 * nf + nw <= 2 * E.p + 1 => Is(E.i_ppin[d], n * ffw, D3(nf, nf, nw) * (2 * nf + nw + 1))
            /\ 2 * ng + nw <= 2 * E.p + 1 => Is(E.i_ppex[d], n * ggw, D3(ng, ng, nw) * (2 * ng + nw + 1))
       /\ Tiny(E.i_res)
       /\ Len(E.i_nodes) = 4 /\ E.i_nodes[1] = E.i_nodes[4] /\ E.i_nodes[2] = E.i_nodes[3]
       /\ E.i_nodes[1] = (E.k + 1) % 3 /\ E.i_nodes[2] = (E.k + 2) % 3
=============================================================================
