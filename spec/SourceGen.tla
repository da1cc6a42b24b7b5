------------------------------ MODULE SourceGen -----------------------------
(* Friction at the states read from SC *)
EXTENDS Source, TLC, Json, IOUtils
SC == ndJsonDeserialize(IOEnv.SC)
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in DOMAIN SC |-> [f |-> Friction(SC[k])]])
=============================================================================
