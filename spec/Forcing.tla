------------------------------ MODULE Forcing -------------------------------
(* Boundary forcing. Angles in steps of 4 degrees, cosines in 1e-6, amplitudes in 1/100, time in half seconds.
   A constituent: [rate (angle per half second), fact, eq, amp, ph] with amp, ph functions of the node. *)
EXTENDS Integers, Sequences
CosTable == <<1000000, 997564, 990268, 978148, 961262, 939693, 913545, 882948, 848048, 809017, 766044, 719340,
            669131, 615661, 559193, 500000, 438371, 374607, 309017, 241922, 173648, 104528, 34899, -34899,
            -104528, -173648, -241922, -309017, -374607, -438371, -500000, -559193, -615661, -669131, -719340,
            -766044, -809017, -848048, -882948, -913545, -939693, -961262, -978148, -990268, -997564, -1000000,
            -997564, -990268, -978148, -961262, -939693, -913545, -882948, -848048, -809017, -766044, -719340,
            -669131, -615661, -559193, -500000, -438371, -374607, -309017, -241922, -173648, -104528, -34899,
            34899, 104528, 173648, 241922, 309017, 374607, 438371, 500000, 559193, 615661, 669131, 719340,
            766044, 809017, 848048, 882948, 913545, 939693, 961262, 978148, 990268, 997564>>
Cos(a) == CosTable[(a % 90) + 1]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* the value imposed at a node at half second t *)
Value(cons, n, t) == SumSeq([k \in DOMAIN cons |->
    cons[k].fact * cons[k].amp[n] * Cos(cons[k].rate * t + cons[k].eq - cons[k].ph[n])])
(* half seconds (relative to the start of a step of one second) at which a scheme evaluates the forcing, and weights *)
Sample(scheme) == CASE scheme = "euler" -> <<<<0, 1>>>>
                    [] scheme = "ssp22" -> <<<<0, 1>>, <<2, 1>>>>
                    [] scheme = "ssp33" -> <<<<0, 1>>, <<2, 1>>, <<1, 4>>>>
                    [] scheme = "implicit" -> <<<<2, 1>>>>
Times(scheme, k) == {2 * k + Sample(scheme)[i][1] : i \in DOMAIN Sample(scheme)}
=============================================================================
