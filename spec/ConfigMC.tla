------------------------------ MODULE ConfigMC ------------------------------
(* A file is taken, written out, taken again... for all presence patterns of a section's keys, for pairs of optional sections together.
   BUG 1..7 are defective treatments. *)
EXTENDS Config
VARIABLES file, got, first, n
vars == <<file, got, first, n>>
Names == SWENames
(* words and what they are *)
Num(d, z, neg) == [u |-> d, d |-> d, b |-> "", neg |-> neg, pos |-> ~neg, z |-> z, t |-> <<>>, slash |-> d \o "/"]
Str(w) == [u |-> "", d |-> "", b |-> "", neg |-> FALSE, pos |-> FALSE, z |-> 0, t |-> <<>>, slash |-> IF w = "p/" THEN w ELSE w \o "/"]
Strs == {"rkdg_swe", "nope", "Adcirc", "Meta", "polar", "Constant", "Function", "Chezy", "Manning", "Cockburn-Shu", "Test", "p", "p/", "f", "raw", "Enable"}
I == [w \in Strs |-> Str(w)] @@ ("1" :> Num("1", 4, FALSE)) @@ ("2" :> Num("2", 8, FALSE)) @@ ("3" :> Num("3", 12, FALSE)) @@ ("7" :> Num("7", 28, FALSE)) @@ ("-1" :> [Num("-1", 0, TRUE) EXCEPT !.u = ""]) @@
     ("0" :> [Num("0", 0, FALSE) EXCEPT !.pos = FALSE, !.b = "0"]) @@
     ("d1" :> [Str("d1") EXCEPT !.t = <<28, 2, 2016, 23, 0, 0>>]) @@ ("d2" :> [Str("d2") EXCEPT !.t = <<1, 3, 2016, 1, 0, 5>>]) @@
     [w \in {Default[k] : k \in DOMAIN Default} |-> [Num(w, 4, FALSE) EXCEPT !.b = w, !.slash = w]]
Dates == (Time(<<28, 2, 2016, 23, 0, 0>>) :> "d1") @@ (Time(<<1, 3, 2016, 1, 0, 5>>) :> "d2")
Base == ("top" :> Map("polynomial_order" :> "2")) @@ ("mesh" :> Map(("format" :> "Meta") @@ ("file_name" :> "f") @@ ("coordinate_system" :> "polar"))) @@
    ("timestepping" :> Map(("start_time" :> "d1") @@ ("end_time" :> "d2") @@ ("dt" :> "2") @@ ("order" :> "1") @@ ("nstages" :> "1"))) @@ ("problem" :> Map("name" :> "rkdg_swe"))
Rich == ("top" :> ("polynomial_order" :> {"3", "f"})) @@ ("mesh" :> (("format" :> {"Adcirc", "nope"}) @@ ("file_name" :> {"f"}) @@ ("coordinate_system" :> {"polar"}))) @@
    ("timestepping" :> (("start_time" :> {"d1", "d2", "f"}) @@ ("end_time" :> {"d2"}) @@ ("dt" :> {"2"}) @@ ("order" :> {"3"}) @@ ("nstages" :> {"3"}) @@ ("ramp_duration" :> {"7"}))) @@
    ("problem" :> (("name" :> {"rkdg_swe", "nope"}) @@ ("gravity" :> {"7"}) @@ ("density_air" :> {"3"}) @@ ("density_water" :> {"2"}))) @@
    ("spherical_projection" :> (("longitude_o" :> {"2"}) @@ ("latitude_o" :> {"3"}) @@ ("R" :> {"7"}))) @@
    ("initial_conditions" :> (("type" :> {"Constant", "Function", "nope"}) @@ ("initial_surface_height" :> {"1"}) @@ ("initial_momentum_x" :> {"2"}) @@ ("initial_momentum_y" :> {"3"}))) @@
    ("bottom_friction" :> (("type" :> {"Chezy", "Manning"}) @@ ("coefficient" :> {"2", "-1"}) @@ ("input_file" :> {"f"}))) @@
    ("meteo_forcing" :> (("type" :> {"f"}) @@ ("raw_input_file" :> {"raw"}) @@ ("input_file" :> {"p"}) @@ ("frequency" :> {"3", "0"}))) @@
    ("tide_potential" :> ("type" :> {"Test"})) @@ ("wetting_drying" :> ("h_o" :> {"3"})) @@ ("slope_limiting" :> (("type" :> {"Cockburn-Shu"}) @@ ("M" :> {"2"}) @@ ("nu" :> {"3"}))) @@
    ("load_balancer" :> (("name" :> {"f"}) @@ ("rebalance_frequency" :> {"7"}))) @@ ("output" :> ("path" :> {"p", "p/"})) @@ ("vtk" :> ("frequency" :> {"7", "0"})) @@ ("modal" :> ("frequency" :> {"3"}))
RECURSIVE Fill(_, _)
Fill(K, F) == IF K = {} THEN {Empty} ELSE LET k == CHOOSE y \in K : TRUE  R == TLCEval(Fill(K \ {k}, F)) IN {(k :> w) @@ f : w \in F[k], f \in R} \cup R
Opts == {"wetting_drying", "initial_conditions", "load_balancer", "output"}
Files == UNION {{(s :> Map(f)) @@ Base : f \in {g \in Fill(DOMAIN Rich[s], Rich[s]) : g # Empty}} : s \in DOMAIN Rich} \cup
    {(s :> [k |-> "null"]) @@ Base : s \in DOMAIN Rich} \cup {[s \in DOMAIN Base \ {t} |-> Base[s]] : t \in DOMAIN Base} \cup
    {(s :> Map(f)) @@ (t :> Map(g)) @@ Base : s \in {"vtk"}, t \in {"output"}, f \in Fill({"frequency"}, Rich["vtk"]), g \in Fill({"path"}, Rich["output"])} \cup
    UNION {{(s :> Map(f)) @@ (t :> Map(g)) @@ Base : f \in Fill(DOMAIN Rich[s], Rich[s]), g \in Fill(DOMAIN Rich[t], Rich[t])} : s \in Opts, t \in {"slope_limiting", "meteo_forcing"}}
Rd(c) == LET r == Read(c, I, Names) IN IF BUG = 6 /\ r.ok THEN [r EXCEPT !.v["rho_air"] = IF r.v["rho_air"] = Default["rho_air"] THEN Default["rho_water"] ELSE @]
                                       ELSE IF BUG = 7 /\ ~r.ok /\ In(c, "load_balancer") THEN Read([s \in DOMAIN c \ {"load_balancer"} |-> c[s]], I, Names) ELSE r
Init == file \in Files /\ got = Rd(file) /\ first = Rd(file) /\ n = 0
Next == /\ n < 2 /\ got.ok
        /\ file' = Write(got.v, Dates)
        /\ got' = Rd(file')
        /\ n' = n + 1 /\ UNCHANGED first
Spec == Init /\ [][Next]_vars
(* a configuration that was taken stays what it is, however often it is written and read; nothing is left to complain about *)
Kept == n > 0 => got.ok /\ got.v = first.v /\ got.warn = 0
(* said apart from Read: which word of a file ends up where *)
Place == <<<<"top", "polynomial_order", "p">>, <<"mesh", "format", "format">>, <<"mesh", "file_name", "file">>, <<"mesh", "coordinate_system", "system">>, <<"timestepping", "dt", "dt">>, <<"timestepping", "order", "order">>,
    <<"timestepping", "nstages", "nstages">>, <<"timestepping", "ramp_duration", "ramp">>, <<"problem", "name", "name">>, <<"problem", "gravity", "g">>, <<"problem", "density_air", "rho_air">>, <<"problem", "density_water", "rho_water">>,
    <<"wetting_drying", "h_o", "wd.h_o">>, <<"load_balancer", "rebalance_frequency", "lb.freq">>>>
Honoured == first.ok /\ n = 0 =>
    /\ (\A i \in DOMAIN Place : Key(file, Place[i][1], Place[i][2]) => first.v[Place[i][3]] = file[Place[i][1]].at[Place[i][2]])
    /\ (~Key(file, "problem", "gravity") => first.v["g"] = "9.8100000000000005")
    /\ (~Key(file, "problem", "density_air") => first.v["rho_air"] = "1.2250000000000001")
    /\ first.v["run"] \in {"93605", "0"}
    /\ (first.v["ic"] = "Constant" => first.v["ic.ze"] = "1" /\ first.v["ic.qx"] = "2" /\ first.v["ic.qy"] = "3")
    /\ (first.v["met"] = "1") => first.v["met.raw"] = "raw" /\ first.v["met.file"] = "p"
    /\ (first.v["out"] = "1" => first.v["out.path"] = "p/")
    /\ (first.v["vtk"] = "1" => first.v["vtk.step"] = "4")
    /\ first.v["bf.C"] # "-1"
Must == [mesh |-> {"format", "file_name", "coordinate_system"}, timestepping |-> {"start_time", "end_time", "dt", "order", "nstages"}, top |-> {"polynomial_order"}, problem |-> {"name"}]
Right ==
    /\ \A s \in DOMAIN Must : Keys(file, s, Must[s])
    /\ ~\E s \in DOMAIN file : file[s].k = "map" /\ s \in {"top", "mesh", "problem", "timestepping"} /\ \E k \in DOMAIN file[s].at : (file[s].at[k] = "nope" \/ (k \in {"polynomial_order", "start_time"} /\ file[s].at[k] = "f"))
    /\ (In(file, "load_balancer") => Keys(file, "load_balancer", {"name", "rebalance_frequency"}))
    /\ (In(file, "output") => Key(file, "output", "path") /\ \A s \in {"vtk", "modal"} : In(file, s) => Key(file, s, "frequency") /\ file[s].at["frequency"] # "0")
    /\ ~(Keys(file, "meteo_forcing", {"type", "raw_input_file", "input_file", "frequency"}) /\ file["meteo_forcing"].at["frequency"] = "0")
    /\ ~(Key(file, "bottom_friction", "coefficient") /\ file["bottom_friction"].at["coefficient"] = "-1" /\ Key(file, "bottom_friction", "type")
         /\ (file["bottom_friction"].at["type"] = "Manning" => Key(file, "bottom_friction", "input_file")))
Refusals == n = 0 => (first.ok <=> Right)
=============================================================================
