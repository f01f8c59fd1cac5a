--------------------------- MODULE WaveguideScen ---------------------------
EXTENDS Waveguide, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen : ks = Scen[i].ks /\ k = Scen[i].k /\ row = 0 /\ active = (ks[1] >= k) /\ start = Zero /\ guides = <<>>
ScenSpec == ScenInit /\ [][Next]_vars
=============================================================================
