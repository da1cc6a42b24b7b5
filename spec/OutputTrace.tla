----------------------------- MODULE OutputTrace -----------------------------
(* Output directories of real runs.  dt, freq: eighths of a second; steps: number of steps; have: per format the steps found on
   disk (for the modal files: the time blocks, as steps); extra: files that belong to no enabled format; log: log files;
   ids, want: element ids in each file and in the submesh; err: largest deviation of any value from the recorded state, in
   units of the format's precision; flag: cells whose wet/dry flag differs. *)
EXTENDS Output, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.ORUNS)
VARIABLE r
TInit == r \in DOMAIN Runs /\ dt = 0 /\ freq = 0 /\ n = 0 /\ written = 0
TSpec == TInit /\ [][UNCHANGED <<r, dt, freq, n, written>>]_<<r, vars>>
X == Runs[r]
OnTime == \A f \in Fmt : LET h == X.have[f] IN
             /\ {h[i] : i \in DOMAIN h} = Schedule(X.freq[f], X.dt, X.steps)
             /\ \A i, j \in DOMAIN h : i # j => h[i] # h[j]
NothingElse == X.extra = 0 /\ X.log = X.wantlog
Everyone == \A i \in DOMAIN X.ids :
              /\ Len(X.ids[i]) = Len(X.want)
              /\ {X.ids[i][j] : j \in DOMAIN X.ids[i]} = {X.want[j] : j \in DOMAIN X.want}
Current == X.err <= 60 /\ X.flag = 0 /\ X.shape = 0
=============================================================================
