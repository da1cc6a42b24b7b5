------------------------------ MODULE ConfigGen ------------------------------
(* Everything that may stand in one section: all choices of keys, with a known and an unknown word for each named option.
   Words in capitals are replaced by random ones of their kind when the file is made. *)
EXTENDS Config, Json, IOUtils, SequencesExt
VARIABLE x
Forms == ("top" :> ("polynomial_order" :> {"UINT", "JUNK", "REAL", "NEG"})) @@
    ("mesh" :> (("format" :> Formats \cup {"NAME"}) @@ ("file_name" :> {"FILE"}) @@ ("coordinate_system" :> Systems \cup {"NAME"}))) @@
    ("timestepping" :> (("start_time" :> {"DATE", "BADDATE"}) @@ ("end_time" :> {"DATE", "BADDATE"}) @@ ("dt" :> {"DT", "JUNK"}) @@ ("order" :> {"UINT", "NEG"}) @@ ("nstages" :> {"UINT", "REAL"}) @@ ("ramp_duration" :> {"REAL"}))) @@
    ("problem" :> (("name" :> SWENames \cup GNNames \cup {"NAME"}) @@ ("gravity" :> {"REAL"}) @@ ("density_air" :> {"REAL"}) @@ ("density_water" :> {"REAL", "JUNK"}))) @@
    ("spherical_projection" :> (("longitude_o" :> {"REAL"}) @@ ("latitude_o" :> {"REAL", "JUNK"}) @@ ("R" :> {"REAL"}))) @@
    ("initial_conditions" :> (("type" :> {"Constant", "Function", "NAME"}) @@ ("initial_surface_height" :> {"REAL"}) @@ ("initial_momentum_x" :> {"REAL"}) @@ ("initial_momentum_y" :> {"REAL", "JUNK"}))) @@
    ("bottom_friction" :> (("type" :> {"Chezy", "Manning", "NAME"}) @@ ("coefficient" :> {"POS", "NEG", "0", "JUNK"}) @@ ("input_file" :> {"FILE"}))) @@
    ("meteo_forcing" :> (("type" :> {"NAME"}) @@ ("raw_input_file" :> {"FILE"}) @@ ("input_file" :> {"FILE"}) @@ ("frequency" :> {"POS", "0", "NEG", "JUNK"}))) @@
    ("tide_potential" :> ("type" :> {"Test", "NAME"})) @@ ("wetting_drying" :> ("h_o" :> {"POS", "JUNK"})) @@
    ("slope_limiting" :> (("type" :> {"Cockburn-Shu", "NAME"}) @@ ("M" :> {"REAL"}) @@ ("nu" :> {"REAL", "JUNK"}))) @@
    ("load_balancer" :> (("name" :> {"NAME"}) @@ ("rebalance_frequency" :> {"REAL", "JUNK"}))) @@
    ("output" :> ("path" :> {"FILE", "DIR"})) @@ ("logfile" :> (("verbose" :> {"BOOL", "NAME"}) @@ ("name" :> {"FILE"}))) @@
    ("vtk" :> ("frequency" :> {"FREQ", "0", "NEG", "JUNK"})) @@ ("vtu" :> ("frequency" :> {"FREQ", "0", "NEG", "JUNK"})) @@ ("modal" :> ("frequency" :> {"FREQ", "0", "NEG", "JUNK"}))
RECURSIVE Fill(_, _)
Fill(K, F) == IF K = {} THEN {Empty} ELSE LET k == CHOOSE y \in K : TRUE  R == TLCEval(Fill(K \ {k}, F)) IN {(k :> w) @@ f : w \in F[k], f \in R} \cup R
Vectors == UNION {LET F == Forms[s] IN {[s |-> s, e |-> [k |-> "map", at |-> f]] : f \in {g \in Fill(DOMAIN F, F) : g # Empty}} : s \in DOMAIN Forms} \cup
    {[s |-> s, e |-> [k |-> "word", w |-> w]] : s \in (DOMAIN Forms) \ {"top"}, w \in {"NAME"}} \cup {[s |-> s, e |-> [k |-> "null"]] : s \in (DOMAIN Forms) \ {"top"}} \cup
    {[s |-> s, e |-> [k |-> "none"]] : s \in DOMAIN Forms} \cup
    {[s |-> s, e |-> e] : s \in {"function_source", "coriolis"}, e \in {[k |-> "word", w |-> "Enable"], [k |-> "word", w |-> "NAME"], [k |-> "null"], [k |-> "none"], [k |-> "map", at |-> ("type" :> "NAME")]}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Vectors))
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
