---------------------------- MODULE SplitTrace -----------------------------
(* Recorded acts of the dispersive program.
   SPR runs (what "r"): acts applied one by one to the real code, with clocks and states (per element: level and momentum
       coefficients), beside the states and clocks of the real step;
   SPP pairs (what "p"): two recordings of the same states;     SPF simple flows (what "f"): change by one correction;
   SPO points (what "o"): recorded rate of the correction in a known flow. *)
EXTENDS Split, FiniteSets, TLC, Json, IOUtils
CONSTANT Tol
RunR == ndJsonDeserialize(IOEnv.SPR)
RunP == ndJsonDeserialize(IOEnv.SPP)
RunF == ndJsonDeserialize(IOEnv.SPF)
RunO == ndJsonDeserialize(IOEnv.SPO)
VARIABLES what, r, l
vars == <<what, r, l>>
Data == CASE what = "r" -> RunR [] what = "p" -> RunP [] what = "f" -> RunF [] what = "o" -> RunO
X == Data[r]
Len_ == CASE what = "r" -> Len(X.acts) [] what = "p" -> Len(X.a) [] OTHER -> 1
Init == /\ what \in {"r", "p", "f", "o"} /\ r \in DOMAIN Data /\ l = 1
Next == l < Len_ /\ l' = l + 1 /\ UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
Alike(A, B, t) == Len(A) = Len(B) /\ \A e \in DOMAIN A : A[e].i = B[e].i /\ A[e].w = B[e].w /\ Near(A[e].z, B[e].z, t) /\ Near(A[e].m, B[e].m, t)
Played == SubSeq(Rep(Word, X.K), 1, l - 1)
OrderOK == what = "r" => /\ Len(X.acts) = 1 + 3 * X.K
                         /\ (l > 1 => X.acts[l] = Rep(Word, X.K)[l - 1].op)
ClockOK == what = "r" => X.clk[l] = Clock(Played) \o <<Clock(Played)[3], Clock(Played)[4]>>
(* the real program after step k shows what the word SDS gives, and its clock has advanced by k steps *)
StepOK == (what = "r" /\ l % 3 = 1) =>
    LET k == (l - 1) \div 3 IN
    /\ X.rclk[k + 1] = X.clk[l]
    /\ Alike(X.real[k + 1], X.st[l], Tol)
(* the correction leaves every water level alone, and everything in elements that are dry or exempted *)
MomentumOnly == (what = "r" /\ X.acts[l] = "D") =>
    \A e \in DOMAIN X.st[l] : LET a == X.st[l - 1][e]  b == X.st[l][e] IN
        /\ a.i = b.i /\ a.w = b.w /\ a.z = b.z
        /\ (a.w = 0 \/ X.on[e] = 0) => a.m = b.m
PairOK == what = "p" => /\ Len(X.a) = Len(X.b) /\ Alike(X.a[l], X.b[l], X.tol)
                        /\ Near(X.ca[l], X.cb[l], 0)
FlowOK == what = "f" => \A i \in DOMAIN X.d : Abs(X.d[i]) <= X.tol
(* one point: h depth there, g gradient of the depth, V and U the fields, got the rate *)
PointOK == what = "o" =>
    LET b == <<-X.g[1], -X.g[2]>>
        V == Jet(X.V, X.s, X.t)  U == Jet(X.U, X.s, X.t)
        h == X.h0 + Mul(X.g[1], X.s) + Mul(X.g[2], X.t)
    IN \A k \in {1, 2} : Abs(Rate(V, U, h, b, k) - X.got[k]) <= X.tol
=============================================================================
