-------------------------- MODULE MeridInterpScen --------------------------
EXTENDS MeridInterp, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen : n = Scen[i].n /\ data = Scen[i].data /\ table = <<>>
ScenSpec == ScenInit /\ [][Evaluate]_vars
=============================================================================
