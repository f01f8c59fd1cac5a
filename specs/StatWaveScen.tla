---------------------------- MODULE StatWaveScen ----------------------------
EXTENDS StatWave, IOUtils
Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E i \in DOMAIN Scen :
              /\ n = Len(Scen[i].q) - 1 /\ order = Scen[i].order /\ prof = TRUE /\ ops = 0 /\ Allowed(n, order)
              /\ f = [j \in 0..n |-> Scen[i].q[j + 1]] /\ u = [j \in 0..n |-> Scen[i].u[j + 1]] /\ thr2 = Scen[i].thr2
              /\ out = [j \in 0..n |-> At(n, order, j, prof, f)]
ScenSpec == ScenInit /\ [][FALSE]_svars
=============================================================================
