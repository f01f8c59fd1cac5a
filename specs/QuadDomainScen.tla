--------------------------- MODULE QuadDomainScen ---------------------------
(* Meridians given by a file.                                              *)
EXTENDS QuadDomain, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen : /\ z = Scen[i].z
                                   /\ segs = SegsOf(z, 1)
                                   /\ boxes = {k \in DOMAIN z : z[k] >= 0}
ScenSpec == ScenInit /\ [][FALSE]_vars
EmitScen == PrintT("@@" \o ToJson([z |-> z, segs |-> segs, boxes |-> boxes]))
=============================================================================
