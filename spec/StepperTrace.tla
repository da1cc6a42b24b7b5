---------------------------- MODULE StepperTrace ----------------------------
(* Recorded behaviour of the real steppers against Stepper.
   RUNS: one line per (kind, stages, order, dt, ramp); fields
     k, s, o        kind, stages, order       ok: accepted by the program
     nst            stages reported           theta: percent (implicit)
     ramp           spin-up length in steps*1e6 (0: none) - only its being zero matters
     ev             sequence of [m, st, sp, ts, t, y, r]: operator ticked (1 main/first, 2 second; 0: initial),
                    stage, step, timestamp, clock/dt*1e6, (abscissa: solution of y'=1 at this stage)/dt*1e6,
                    ramp mapped back through atanh to time/dt*1e6 (or 1e6*ramp when there is none) *)
EXTENDS Stepper, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES r, l
tv == <<kind, c, d, pc, r, l>>
Run == Runs[r]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= 3
U == 1000000
HalfT(k) == (k * U) \div 2

Observes(e, clk) ==
    /\ e.st = clk.stage /\ e.sp = clk.step /\ e.ts = clk.ts
    /\ IF Run.k = "implicit" THEN Near(e.t, HalfT(StepTime(clk)))
       ELSE /\ (clk.stage = 0 => Near(e.t, HalfT(StepTime(clk))))
            /\ Near(e.t, e.y)                            \* evaluated at the scheme's own abscissa
    /\ IF Run.ramp = 0 THEN e.r = U ELSE Abs(e.r - e.t) <= 5 + e.t \div 10000
TInit == /\ r \in 1..Len(Runs) /\ l = 1
         /\ kind = Run.k /\ pc = 0
         /\ c = Clock(Stages(Run.k, Run.s), IF Run.k = "strang" THEN 1 ELSE 2)
         /\ d = Clock(Stages(Run.k, Run.s), 2)
Accepts == Run.ok = (IF Offered(Run.k, Run.s, Run.o) THEN 1 ELSE 0)
TNext == /\ l <= Len(Run.ev)
         /\ LET e == Run.ev[l] IN
            IF e.m = 0 THEN /\ Observes(e, c) /\ Run.nst = c.n
                            /\ (Run.k = "implicit" => Run.theta = ThetaPercent(Run.o))
                            /\ UNCHANGED <<c, d, pc, kind>>
            ELSE /\ e.m = (IF kind = "strang" /\ pc \in n .. 2*n-1 THEN 2 ELSE 1)
                 /\ pc' = (pc + 1) % TicksPerStep
                 /\ UNCHANGED kind
                 /\ IF e.m = 2 THEN d' = Tick(d) /\ UNCHANGED c /\ Observes(e, d')
                    ELSE c' = Tick(c) /\ (IF kind = "strang" THEN UNCHANGED d ELSE d' = Tick(d)) /\ Observes(e, c')
                 /\ (kind = "strang" => e.gs = d'.step)
         /\ l' = l + 1 /\ UNCHANGED r
Done == l > Len(Run.ev) /\ UNCHANGED tv
TSpec == TInit /\ [][TNext \/ Done]_tv
(* a run that cannot follow the model deadlocks *)
Inv == Accepts /\ CountersAgree /\ SplitInStep /\ SplitSymmetric
=============================================================================
