---------------------------- MODULE LedgerTrace ----------------------------
(* Steps recorded from whole runs of the real program in closed basins.
   LRUNS, one line per run:
     n, wd (0/1), flux (0/1: face fluxes known, single stage steps), kind
     film : film volume of each cell relative to its initial volume
     ufe, ste: tolerance (units) of one face exchange / of a total
     steps: sequence of [v, fx]; v the volume of every cell relative to the start,
            fx (if flux) sequence of [a, b, out, into] (b = 0: wall) *)
EXTENDS Ledger, Json, IOUtils, TLC
LRuns == ndJsonDeserialize(IOEnv.LRUNS)
VARIABLES r, l
LRun == LRuns[r]
Abs(x) == IF x < 0 THEN -x ELSE x
Steps == LRun.steps
TInit == r \in 1..Len(LRuns) /\ l = 1 /\ vol = LRuns[r].steps[1].v /\ start = SumSeq(LRuns[r].steps[1].v, LRuns[r].n) /\ added = 0
FacesOK(fx) == \A k \in 1..Len(fx) :
    IF fx[k].b = 0 THEN Abs(fx[k].out) <= LRun.ufe                        \* walls pass nothing
    ELSE Abs(fx[k].out - fx[k].into) <= LRun.ufe                          \* what leaves one side enters the other
NFaces(fx, c) == Cardinality({k \in 1..Len(fx) : fx[k].a = c \/ fx[k].b = c})
CellOK(v, w, fx, c) == LET e == IF LRun.wd = 1 THEN After(v, fx, LRun.film, c) ELSE v[c] - Outflow(fx, c)
                       IN Abs(w[c] - e) <= LRun.ufe + 2 + NFaces(fx, c)
Total(v) == SumSeq(v, LRun.n)
TNext == /\ l < Len(Steps)
         /\ LET w == Steps[l+1].v  fx == Steps[l+1].fx IN
            /\ LRun.flux = 1 => FacesOK(fx) /\ \A c \in 1..LRun.n : CellOK(vol, w, fx, c)
            /\ vol' = w
            /\ LET gain == Total(w) - Total(vol) IN
               IF LRun.wd = 1 THEN gain >= -LRun.ste /\ added' = added + gain
               ELSE Abs(gain) <= LRun.ste /\ added' = added
         /\ l' = l + 1 /\ UNCHANGED <<r, start>>
Done == l = Len(Steps) /\ UNCHANGED <<vol, start, added, r, l>>
TSpec == TInit /\ [][TNext \/ Done]_<<vol, start, added, r, l>>
(* over the whole run: nothing lost, nothing gained but the film; cells keep the film *)
Tol == LRun.ste
Balance == IF LRun.wd = 1 THEN Total(vol) >= start - Tol
           ELSE Abs(Total(vol) - start) <= Tol
KeepsFilm == (LRun.wd = 1 /\ l > 1) => \A c \in 1..LRun.n : vol[c] >= LRun.film[c] - LRun.ufe - 2
=============================================================================
