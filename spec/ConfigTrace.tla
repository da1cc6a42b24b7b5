----------------------------- MODULE ConfigTrace -----------------------------
(* What the real readers (for each problem, and the one that leaves the problem alone: "any") make of files: the settings read, the
   complaints, the file written out of them (read here independently), what is read from that, and the settings the run works with. *)
EXTENDS Config, Json, IOUtils
TabC == ndJsonDeserialize(IOEnv.CFC)
TabN == ndJsonDeserialize(IOEnv.CFN)
VARIABLES what, r
vars == <<what, r>>
Data == CASE what = "c" -> TabC [] what = "n" -> TabN
X == Data[r]
Init == what \in {"c", "n"} /\ r \in DOMAIN Data
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
NamesOf(p) == IF p = "any" THEN {} ELSE IF p = "gn" THEN GNNames ELSE SWENames
C == what = "c"
M == Read(X.file, X.info, NamesOf(X.prog))
Ok == C /\ X.ok /\ M.ok
(* settings both sides speak of: the reader that leaves the problem alone does not know its settings *)
Same(a, b) == \A k \in DOMAIN a : a[k] = b[k]
Whole == {"p", "format", "file", "system", "start", "end", "run", "dt", "order", "nstages", "ramp", "out", "out.path", "lb", "vtk", "vtu", "modal", "log"}
Told == C => X.ok \/ X.refused                   \* never anything but taken or refused
Taken == C => (X.ok <=> M.ok)
Values == Ok => /\ Same(X.read, M.v) /\ Whole \subseteq DOMAIN X.read /\ X.side = X.sides
                /\ (X.prog # "any" => DOMAIN X.read = DOMAIN M.v)
Complaints == Ok => X.warn = M.warn
(* the file written says the same, in the form of a complete file *)
Kids == {"spherical_projection", "initial_conditions", "function_source", "bottom_friction", "meteo_forcing", "tide_potential", "coriolis", "wetting_drying", "slope_limiting"}
Plain(c) == [s \in DOMAIN c |-> c[s]]
NoType(F) == [s \in DOMAIN F |-> IF s = "spherical_projection" THEN F[s] \ {"type"} ELSE F[s]]      \* written, never read
Drop(c, S) == [s \in (DOMAIN c) \ S |-> c[s]]
Written == Ok => LET w == TLCEval(Read(X.wrote, X.info, NamesOf(X.prog))) IN
    /\ w.ok /\ w.v = M.v
    /\ IF X.prog = "any" THEN /\ Drop(X.wrote, DOMAIN X.wrote \ (Kids \cup {"problem"})) = Drop(X.file, DOMAIN X.file \ (Kids \cup {"problem"}))
       ELSE /\ w.warn = 0
            /\ NoType(Form(X.wrote)) = Form(Write(M.v, (M.v["start"] :> "") @@ (M.v["end"] :> "")))
Again == Ok => X.again = X.read /\ X.twice
Applies == Ok /\ X.prog # "any" => X.applied = Applied(M.v)
(* the program takes the problems it has, and no others *)
Dispatch == what = "n" => (X.taken <=> X.name \in Runs) /\ (~X.taken => X.refused) /\ (X.taken => X.name \in {X.like[i] : i \in DOMAIN X.like} /\ Len(X.like) = 1)
=============================================================================
