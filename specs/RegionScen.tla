----------------------------- MODULE RegionScen -----------------------------
(* Selections given by a file, for grids too large to enumerate.           *)
EXTENDS Region, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
VARIABLE i
ScenInit == /\ i \in DOMAIN Scen
            /\ n = Scen[i].n /\ lat = Scen[i].lat /\ lon = Scen[i].lon /\ res = Result
ScenSpec == ScenInit /\ [][FALSE]_<<vars, i>>
=============================================================================
