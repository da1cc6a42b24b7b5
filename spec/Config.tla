------------------------------- MODULE Config -------------------------------
(* What a run's configuration file means.
   A file is a function from the sections that are in it to what stands there: [k |-> "map", at |-> key -> word],
   [k |-> "word", w |-> word] or [k |-> "null"] (a name with nothing after it). Sections inside "problem" and "output" are listed by their own
   names; the single words of the top level and of "problem" itself are the sections "top" and "problem".
   Words are opaque; I says of each word what it is: u, d, b its normal form as a natural number, a number, a truth value
   ("" if it is none), neg/pos its sign, z its quarters (dyadic values) and t its date <<day, month, year, h, m, s>> (<<>> if it is none).
   What a file means: [ok: it is taken, warn: number of complaints about left out sections, v: name of a setting -> normal form]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT BUG

SWENames == {"rkdg_swe", "ehdg_swe", "ihdg_swe"}
GNNames == {"ehdg_gn", "ihdg_gn"}
Runs == {"rkdg_swe", "ehdg_swe", "ihdg_swe", "ehdg_gn"}            \* what the program can run
Formats == {"Adcirc", "Meta"}
Systems == {"cartesian", "polar", "spherical"}
(* the values of settings that are left out *)
Default == ("g" :> "9.8100000000000005") @@ ("rho_air" :> "1.2250000000000001") @@ ("rho_water" :> "1000") @@ ("sp.on" :> "0") @@ ("sp.lon" :> "0") @@ ("sp.lat" :> "0") @@ ("sp.R" :> "6378200") @@
    ("ic" :> "Default") @@ ("ic.ze" :> "0") @@ ("ic.qx" :> "0") @@ ("ic.qy" :> "0") @@ ("fs" :> "0") @@ ("bf" :> "None") @@ ("bf.C" :> "0") @@ ("bf.file" :> "") @@
    ("met" :> "0") @@ ("met.type" :> "") @@ ("met.raw" :> "") @@ ("met.file" :> "") @@ ("met.freq" :> "") @@ ("tp" :> "None") @@ ("cor" :> "0") @@ ("wd" :> "0") @@ ("wd.h_o" :> "0.10000000000000001") @@
    ("sl" :> "None") @@ ("sl.M" :> "1e-08") @@ ("sl.nu" :> "1.5") @@ ("ramp" :> "0") @@ ("out" :> "0") @@ ("out.path" :> "") @@ ("log" :> "0") @@ ("log.verbose" :> "0") @@ ("log.name" :> "") @@
    ("vtk" :> "0") @@ ("vtk.freq" :> "") @@ ("vtk.step" :> "") @@ ("vtu" :> "0") @@ ("vtu.freq" :> "") @@ ("vtu.step" :> "") @@ ("modal" :> "0") @@ ("modal.freq" :> "") @@ ("modal.step" :> "") @@
    ("lb" :> "0") @@ ("lb.name" :> "") @@ ("lb.freq" :> "")

(* ---- reading ---- *)
Empty == [x \in {} |-> ""]
In(c, s) == s \in DOMAIN c
Kind(c, s) == IF In(c, s) THEN c[s].k ELSE "none"
Key(c, s, k) == Kind(c, s) = "map" /\ k \in DOMAIN c[s].at
Keys(c, s, K) == \A k \in K : Key(c, s, k)
W(c, s, k) == c[s].at[k]
As(I, w, t) == CASE t = "u" -> I[w].u [] t = "d" -> I[w].d [] t = "b" -> I[w].b [] t = "s" -> w [] t = "+" -> IF I[w].neg THEN "" ELSE I[w].d
Good(v) == [ok |-> TRUE, warn |-> 0, v |-> v]
Warn == [ok |-> TRUE, warn |-> 1, v |-> Empty]
Refuse == [ok |-> FALSE, warn |-> 0, v |-> Empty]
(* M: sequence of <<key, name of the setting, type>>; all these keys are there *)
Take(c, I, s, M, more) == IF \E i \in DOMAIN M : As(I, W(c, s, M[i][1]), M[i][3]) = "" THEN Refuse
    ELSE Good([n \in {M[i][2] : i \in DOMAIN M} |-> LET i == CHOOSE j \in DOMAIN M : M[j][2] = n IN As(I, W(c, s, M[i][1]), M[i][3])] @@ more)
One(k, v) == (k :> v)

(* dates: days since 1 January 1970 and seconds of the day *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Day(t) == LET y == t[3] - 1 IN (y * 365 + (y \div 4) - (y \div 100) + (y \div 400)) - 719162 + Before[t[2]] + (IF t[2] > 2 /\ Leap(t[3]) THEN 1 ELSE 0) + t[1] - 1
Sec(t) == t[4] * 3600 + t[5] * 60 + t[6]
Time(t) == ToString(Day(t)) \o " " \o ToString(Sec(t))
Span(a, b) == (Day(b) - Day(a)) * 86400 + Sec(b) - Sec(a)

ReadTop(c, I) == IF ~Key(c, "top", "polynomial_order") THEN Refuse ELSE Take(c, I, "top", <<<<"polynomial_order", "p", "u">>>>, Empty)
ReadMesh(c, I) == IF ~Keys(c, "mesh", {"format", "file_name", "coordinate_system"}) THEN Refuse
    ELSE IF W(c, "mesh", "format") \notin Formats \/ W(c, "mesh", "coordinate_system") \notin Systems THEN Refuse
    ELSE Take(c, I, "mesh", <<<<"format", "format", "s">>, <<"file_name", "file", "s">>, <<"coordinate_system", "system", "s">>>>, Empty)
ReadTime(c, I) == IF ~Keys(c, "timestepping", {"start_time", "end_time", "dt", "order", "nstages"}) THEN Refuse
    ELSE LET a == I[W(c, "timestepping", "start_time")].t  b == I[W(c, "timestepping", "end_time")].t IN
         IF a = <<>> \/ b = <<>> THEN Refuse
         ELSE Take(c, I, "timestepping", <<<<"dt", "dt", "d">>, <<"order", "order", "u">>, <<"nstages", "nstages", "u">>>> \o
                   (IF Key(c, "timestepping", "ramp_duration") THEN <<<<"ramp_duration", "ramp", "d">>>> ELSE <<>>),
                   ("start" :> Time(a)) @@ ("end" :> Time(b)) @@ ("run" :> ToString(Span(a, b))))
(* the words of "problem" itself *)
ReadName(c, I, names) == IF ~Key(c, "problem", "name") THEN Refuse
    ELSE IF W(c, "problem", "name") \notin names THEN Refuse
    ELSE Take(c, I, "problem", <<<<"name", "name", "s">>>> \o (IF Key(c, "problem", "gravity") THEN <<<<"gravity", "g", "d">>>> ELSE <<>>)
              \o (IF Key(c, "problem", "density_air") THEN <<<<"density_air", "rho_air", "d">>>> ELSE <<>>)
              \o (IF Key(c, "problem", "density_water") THEN <<<<"density_water", "rho_water", "d">>>> ELSE <<>>), Empty)
(* the optional sections of "problem": not there - nothing; a word where a section belongs - refused; incomplete - a complaint and the defaults *)
Opt(c, s, R) == CASE Kind(c, s) = "none" -> Good(Empty) [] Kind(c, s) = "word" -> Refuse [] Kind(c, s) = "null" -> Warn [] OTHER -> R
ReadSp(c, I) == Opt(c, "spherical_projection", IF ~Keys(c, "spherical_projection", {"longitude_o", "latitude_o", "R"}) THEN Warn
    ELSE Take(c, I, "spherical_projection", <<<<"longitude_o", "sp.lon", "d">>, <<"latitude_o", "sp.lat", "d">>, <<"R", "sp.R", "d">>>>, One("sp.on", "1")))
ReadIc(c, I) == Opt(c, "initial_conditions", IF ~Key(c, "initial_conditions", "type") THEN Warn
    ELSE CASE W(c, "initial_conditions", "type") = "Constant" -> IF ~Keys(c, "initial_conditions", {"initial_surface_height", "initial_momentum_x", "initial_momentum_y"}) THEN Warn
                    ELSE Take(c, I, "initial_conditions", <<<<"initial_surface_height", "ic.ze", "d">>, <<"initial_momentum_x", "ic.qx", "d">>, <<"initial_momentum_y", "ic.qy", "d">>>>, One("ic", "Constant"))
           [] W(c, "initial_conditions", "type") = "Function" -> Good(One("ic", "Function"))
           [] OTHER -> Warn)
ReadBf(c, I) == Opt(c, "bottom_friction", IF ~Key(c, "bottom_friction", "type") THEN Warn
    ELSE CASE W(c, "bottom_friction", "type") = "Chezy" /\ Key(c, "bottom_friction", "coefficient") ->
                    Take(c, I, "bottom_friction", <<<<"coefficient", "bf.C", IF BUG = 5 THEN "d" ELSE "+">>>>, One("bf", "Chezy"))
           [] W(c, "bottom_friction", "type") = "Manning" /\ Keys(c, "bottom_friction", {"coefficient", "input_file"}) ->
                    Take(c, I, "bottom_friction", <<<<"coefficient", "bf.C", "+">>, <<"input_file", "bf.file", "s">>>>, One("bf", "Manning"))
           [] OTHER -> Warn)
ReadMet(c, I) == Opt(c, "meteo_forcing", IF ~Keys(c, "meteo_forcing", {"type", "raw_input_file", "input_file", "frequency"}) THEN Warn
    ELSE IF ~I[W(c, "meteo_forcing", "frequency")].pos /\ BUG # 8 THEN Refuse
    ELSE Take(c, I, "meteo_forcing", <<<<"type", "met.type", "s">>, <<"raw_input_file", "met.raw", "s">>, <<"input_file", "met.file", "s">>, <<"frequency", "met.freq", "d">>>>, One("met", "1")))
ReadTp(c, I) == Opt(c, "tide_potential", IF ~Key(c, "tide_potential", "type") \/ W(c, "tide_potential", "type") # "Test" THEN Warn ELSE Good(One("tp", "Test")))
ReadWd(c, I) == Opt(c, "wetting_drying", IF ~Key(c, "wetting_drying", "h_o") THEN Warn ELSE Take(c, I, "wetting_drying", <<<<"h_o", "wd.h_o", "d">>>>, One("wd", "1")))
ReadSl(c, I) == Opt(c, "slope_limiting", IF ~Key(c, "slope_limiting", "type") \/ ~Keys(c, "slope_limiting", {"M", "nu"}) \/ W(c, "slope_limiting", "type") # "Cockburn-Shu" THEN Warn
    ELSE Take(c, I, "slope_limiting", <<<<"M", "sl.M", "d">>, <<"nu", "sl.nu", "d">>>>, One("sl", "Cockburn-Shu")))
(* the switches *)
Switch(c, s, n) == CASE Kind(c, s) = "none" -> Good(Empty) [] Kind(c, s) = "map" -> Refuse [] Kind(c, s) = "null" -> Warn
    [] OTHER -> IF c[s].w = "Enable" THEN Good(One(n, "1")) ELSE Warn
ReadLb(c, I) == CASE Kind(c, "load_balancer") = "none" -> Good(Empty)
    [] OTHER -> IF ~Keys(c, "load_balancer", {"name", "rebalance_frequency"}) THEN Refuse
                ELSE Take(c, I, "load_balancer", <<<<"name", "lb.name", "s">>, <<"rebalance_frequency", "lb.freq", "d">>>>, One("lb", "1"))
(* output: where there is none, its parts are not looked at *)
ReadOut(c, I) == CASE Kind(c, "output") = "none" -> Good(Empty)
    [] OTHER -> IF ~Key(c, "output", "path") THEN Refuse
                ELSE Good(("out" :> "1") @@ ("out.path" :> I[W(c, "output", "path")].slash))
Out(c) == In(c, "output")
ReadLog(c, I) == IF ~Out(c) \/ Kind(c, "logfile") = "none" THEN Good(Empty) ELSE IF ~Keys(c, "logfile", {"verbose", "name"}) THEN Refuse
    ELSE Take(c, I, "logfile", <<<<"verbose", "log.verbose", "b">>, <<"name", "log.name", "s">>>>, One("log", "1"))
(* output every f seconds, at the first steps not before: every ceiling(f / dt) steps *)
Every(f, dt) == ToString((f + dt - 1) \div dt)
ReadF(c, I, s) == IF ~Out(c) \/ Kind(c, s) = "none" THEN Good(Empty) ELSE IF ~Key(c, s, "frequency") THEN Refuse
    ELSE IF ~I[W(c, s, "frequency")].pos THEN Refuse
    ELSE Good((s :> "1") @@ ((s \o ".freq") :> I[W(c, s, "frequency")].d) @@ ((s \o ".step") :>
              IF Key(c, "timestepping", "dt") /\ I[W(c, "timestepping", "dt")].z > 0 THEN Every(I[W(c, s, "frequency")].z, I[W(c, "timestepping", "dt")].z) ELSE "?"))

RECURSIVE Join(_)
Join(P) == IF P = <<>> THEN Good(Empty) ELSE LET a == Head(P)  b == TLCEval(Join(Tail(P))) IN [ok |-> a.ok /\ b.ok, warn |-> a.warn + b.warn, v |-> a.v @@ b.v]
(* names: the problem names the reader is for; {} - it leaves the problem alone *)
Parts(c, I, names) == <<ReadTop(c, I), ReadMesh(c, I), ReadTime(c, I), ReadLb(c, I), ReadOut(c, I), ReadLog(c, I), ReadF(c, I, "vtk"), ReadF(c, I, "vtu"), ReadF(c, I, "modal")>> \o
    (IF names = {} THEN <<IF In(c, "problem") THEN Good(Empty) ELSE Refuse>>
     ELSE <<ReadName(c, I, names), ReadSp(c, I), ReadIc(c, I), Switch(c, "function_source", "fs"), ReadBf(c, I), ReadMet(c, I), ReadTp(c, I), Switch(c, "coriolis", "cor"), ReadWd(c, I), ReadSl(c, I)>>)
Read(c, I, names) == LET j == TLCEval(Join(Parts(c, I, names))) IN IF j.ok THEN [j EXCEPT !.v = @ @@ Default] ELSE Refuse

(* ---- writing ---- *)
Map(f) == [k |-> "map", at |-> f]
On(b, s, x) == IF b THEN (s :> x) ELSE Empty
V(v, k, n) == (k :> v[n])
Write(v, date) == ("top" :> Map(V(v, "polynomial_order", "p"))) @@ ("mesh" :> Map(V(v, "format", "format") @@ V(v, "file_name", "file") @@ V(v, "coordinate_system", "system"))) @@
    ("timestepping" :> Map(("start_time" :> date[v["start"]]) @@ ("end_time" :> date[v["end"]]) @@ V(v, "dt", "dt") @@ V(v, "order", "order") @@ V(v, "nstages", "nstages") @@ (IF BUG = 1 THEN Empty ELSE V(v, "ramp_duration", "ramp")))) @@
    ("problem" :> Map(V(v, "name", "name") @@ V(v, "gravity", "g") @@ V(v, "density_air", "rho_air") @@ V(v, "density_water", "rho_water"))) @@
    On(v["sp.on"] = "1", "spherical_projection", Map(V(v, "longitude_o", "sp.lon") @@ V(v, "latitude_o", "sp.lat") @@ V(v, "R", "sp.R"))) @@
    On(v["ic"] # "Default", "initial_conditions", Map(V(v, "type", "ic") @@ (IF v["ic"] = "Function" THEN Empty ELSE
        V(v, "initial_surface_height", "ic.ze") @@ V(v, "initial_momentum_x", IF BUG = 2 THEN "ic.qy" ELSE "ic.qx") @@ V(v, "initial_momentum_y", IF BUG = 2 THEN "ic.qx" ELSE "ic.qy")))) @@
    On(v["fs"] = "1", "function_source", [k |-> "word", w |-> "Enable"]) @@
    On(v["bf"] # "None", "bottom_friction", Map(V(v, "type", "bf") @@ V(v, "coefficient", "bf.C") @@ (IF v["bf"] = "Manning" THEN V(v, "input_file", "bf.file") ELSE Empty))) @@
    On(v["met"] = "1", "meteo_forcing", Map(V(v, "type", "met.type") @@ V(v, "raw_input_file", "met.raw") @@ V(v, "input_file", IF BUG = 4 THEN "met.raw" ELSE "met.file") @@ V(v, "frequency", "met.freq"))) @@
    On(v["tp"] # "None", "tide_potential", Map(V(v, "type", "tp"))) @@
    On(v["cor"] = "1", "coriolis", [k |-> "word", w |-> "Enable"]) @@
    On(v["wd"] = "1" /\ BUG # 3, "wetting_drying", Map(V(v, "h_o", "wd.h_o"))) @@
    On(v["sl"] # "None", "slope_limiting", Map(V(v, "type", "sl") @@ V(v, "M", "sl.M") @@ V(v, "nu", "sl.nu"))) @@
    On(v["lb"] = "1", "load_balancer", Map(V(v, "name", "lb.name") @@ V(v, "rebalance_frequency", "lb.freq"))) @@
    On(v["out"] = "1", "output", Map(V(v, "path", "out.path"))) @@
    On(v["log"] = "1", "logfile", Map(V(v, "verbose", "log.verbose") @@ V(v, "name", "log.name"))) @@
    On(v["vtk"] = "1", "vtk", Map(V(v, "frequency", "vtk.freq"))) @@ On(v["vtu"] = "1", "vtu", Map(V(v, "frequency", "vtu.freq"))) @@ On(v["modal"] = "1", "modal", Map(V(v, "frequency", "modal.freq")))
(* the form of a file: its sections and their keys *)
Form(c) == [s \in DOMAIN c |-> IF c[s].k = "map" THEN DOMAIN c[s].at ELSE {c[s].k}]

(* what the run then works with *)
Applied(v) == ("g" :> v["g"]) @@ ("rho_air" :> v["rho_air"]) @@ ("rho_water" :> v["rho_water"]) @@ ("fs" :> v["fs"]) @@ ("bf" :> IF v["bf"] = "None" THEN "0" ELSE "1") @@ ("Cf" :> v["bf.C"]) @@
    ("met" :> v["met"]) @@ ("tp" :> IF v["tp"] = "None" THEN "0" ELSE "1") @@ ("cor" :> v["cor"]) @@ ("wd" :> v["wd"]) @@ ("h_o" :> v["wd.h_o"]) @@ ("sl" :> IF v["sl"] = "None" THEN "0" ELSE "1") @@
    ("M" :> v["sl.M"]) @@ ("nu" :> v["sl.nu"])
=============================================================================
