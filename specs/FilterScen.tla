----------------------------- MODULE FilterScen -----------------------------
(* Fields and programs given by a file; impulses for the small grids.      *)
EXTENDS Filter, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
VARIABLE todo
ScenInit == \E i \in DOMAIN Scen : f0 = Scen[i].f /\ f = f0 /\ prog = <<>> /\ todo = Scen[i].prog
ScenStep == todo # <<>> /\ f' = Apply(f, Head(todo)) /\ prog' = Append(prog, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED f0
ScenSpec == ScenInit /\ [][ScenStep]_<<vars, todo>>
EmitScen == todo = <<>> => PrintT("@@" \o ToJson([f0 |-> f0, prog |-> prog, f |-> f]))
=============================================================================
