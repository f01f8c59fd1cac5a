--------------------------- MODULE DerivativeScen ---------------------------
EXTENDS Derivative, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen :
              /\ n = Len(Scen[i].f) - 1 /\ order = Scen[i].order /\ prof = Scen[i].prof
              /\ f = [j \in 0..n |-> Scen[i].f[j + 1]]
              /\ out = [j \in 0..n |-> IF Allowed(n, order) THEN At(n, order, j, prof, f) ELSE Zero] /\ ops = 0
ScenSpec == ScenInit /\ [][FALSE]_vars
=============================================================================
