---------------------------- MODULE WetDryTrace -----------------------------
(* Replays of lattice states into the real kernel (KV), initial classifications (IV) and whole runs (WR).
   KV: b, h, mx, my, wet (before), t: [h, mx, my, wet] rounded to the scale, same/alien/hi (0/1): state bitwise unchanged,
       another stage touched, higher modes left after a change; frac (0/1): some value off the lattice it must lie on;
       water, push: 0/1 element mean of depth / momentum preserved as required up to rounding
   IV: h (before), t (after), depths clear of ties
   WR: steps of whole runs: per element [w, h, m] = flag, smallest nodal depth in units (Ho units = limit), max |momentum| *)
EXTENDS WetDry, TLC, Json, IOUtils
CONSTANT Tol
KV == ndJsonDeserialize(IOEnv.KV)
IV == ndJsonDeserialize(IOEnv.IV)
WR == ndJsonDeserialize(IOEnv.WR)
VARIABLES what, r, l
St(x) == R(x.h, x.mx, x.my, x.wet)
Init == \/ what = "k" /\ r \in DOMAIN KV /\ l = 1
        \/ what = "i" /\ r \in DOMAIN IV /\ l = 1
        \/ what = "w" /\ r \in DOMAIN WR /\ l = 1
Next == what = "w" /\ l < Len(WR[r].steps) /\ l' = l + 1 /\ UNCHANGED <<what, r>>
Spec == Init /\ [][Next]_<<what, r, l>>
K == KV[r]
KernelLawful == what = "k" => LET s == St(K) t == St(K.t) IN
    /\ Good(s, t, K.b)
    /\ K.alien = 0
    /\ Submerged(s) => K.same = 1
    /\ K.water = 1
KernelIsStep == what = "k" => LET s == St(K) t == St(K.t) IN
    /\ t \in Step(s, K.b)
    /\ K.frac = 0
    /\ (DryV(s.h) # {} => K.hi = 0)
Classifies == what = "i" => St(IV[r].t) = Classified(R(IV[r].h, IV[r].mx, IV[r].my, TRUE))
RunLawful == what = "w" => LET E == WR[r].steps[l] IN \A i \in DOMAIN E :
    /\ E[i][2] >= -Tol
    /\ E[i][1] = 1 => E[i][2] >= WR[r].ho - Tol
    /\ E[i][1] = 0 => E[i][3] = 0
=============================================================================
