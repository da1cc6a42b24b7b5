---------------------------- MODULE ForcingTrace ----------------------------
(* Records of real runs, elements with one forced edge started from the same state in every step.
   FT: [scheme, d: per step the change of the element's three integrals, w: per half second h (index h+1) the change in one
       Euler-like step of a twin element whose boundary is held at the value of that moment, tol]
   FA: anchors: [d, e] change and what it must be     FW: [a, b] element behind a wall and in front of its mirror image *)
EXTENDS Forcing, TLC, Json, IOUtils
FT == ndJsonDeserialize(IOEnv.FT)
FA == ndJsonDeserialize(IOEnv.FA)
FW == ndJsonDeserialize(IOEnv.FW)
VARIABLES what, r, k
Init == \/ what = "t" /\ r \in DOMAIN FT /\ k = 0
        \/ what = "a" /\ r \in DOMAIN FA /\ k = 0
        \/ what = "w" /\ r \in DOMAIN FW /\ k = 0
Next == what = "t" /\ k < Len(FT[r].d) - 1 /\ k' = k + 1 /\ UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_<<what, r, k>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == \A j \in 1..3 : Abs(a[j] - b[j]) <= tol
X == FT[r]
S == Sample(X.scheme)
W == SumSeq([i \in DOMAIN S |-> S[i][2]])
Seen(j) == SumSeq([i \in DOMAIN S |-> S[i][2] * X.w[2 * k + S[i][1] + 1][j]])
RightValueRightTime == what = "t" => \A j \in 1..3 : Abs(W * X.d[k + 1][j] - Seen(j)) <= W * X.tol
Anchored == what = "a" => \A j \in 1..3 : FA[r].e[j] # 1000000001 => Abs(FA[r].d[j] - FA[r].e[j]) <= FA[r].tol
Reflects == what = "w" => Near(FW[r].a, FW[r].b, FW[r].tol) /\ Abs(FW[r].a[1]) <= 1
=============================================================================
