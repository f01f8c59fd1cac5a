----------------------------- MODULE MeansScen -----------------------------
(* Growing regions on larger grids, starting from blocks given by a file.  *)
EXTENDS Means, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen :
               /\ n = Scen[i].n /\ point = Scen[i].point /\ rows = Scen[i].rows /\ west = Scen[i].west /\ width = Scen[i].width
               /\ num = Num(rows, west, width) /\ den = Den(rows, width) /\ steps = <<>>
ScenSpec == ScenInit /\ [][Next]_vars
=============================================================================
