---------------------------- MODULE ZonalizeScen ----------------------------
(* Fields and contours given by a file.                                    *)
EXTENDS Zonalize, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
VARIABLE i
ScenInit == /\ i \in DOMAIN Scen /\ f = Scen[i].f /\ todo = Scen[i].levels2 /\ done = <<>> /\ Rest
ScenSpec2 == ScenInit /\ [][Lower /\ UNCHANGED i]_<<zvars, i>>
\* contours in any order
NestedAny == \A a, b \in DOMAIN done : done[a].q2 >= done[b].q2 => Leq(Size(done[a]), Size(done[b]))
EmitId == todo = <<>> => PrintT("@@" \o ToJson([i |-> i, f |-> f, done |-> done]))
=============================================================================
