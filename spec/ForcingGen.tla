----------------------------- MODULE ForcingGen -----------------------------
(* For scenarios read from SC ([cons, nodes, scheme, steps]) the values to be imposed per half second and node *)
EXTENDS Forcing, TLC, Json, IOUtils
SC == ndJsonDeserialize(IOEnv.SC)
Row(s) == [tab |-> [h \in 1..(2 * s.steps + 2) |-> [n \in 1..s.nodes |-> Value(s.cons, n, h - 1)]]]
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in DOMAIN SC |-> Row(SC[k])])
=============================================================================
