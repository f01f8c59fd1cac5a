--------------------------- MODULE ModelRunTrace ----------------------------
(***************************************************************************)
(* Validation of recorded runs. A record of the trace file is one call:    *)
(* [t0, dt, span, s] and what the code did: visited (times at which it     *)
(* evaluated the forcing, in order), saved (times of the saved states),    *)
(* final (time of the final state). The actions of ModelRun are replayed;  *)
(* the verdict names the first clause the recording violates.              *)
(***************************************************************************)
EXTENDS ModelRun, IOUtils

Log == ndJsonDeserialize(IOEnv.SCEN)

VARIABLES i, verdict
tvars == <<vars, i, verdict>>

TraceInit == /\ i \in 1..Len(Log) /\ verdict = "running"
             /\ Init0([t0 |-> Log[i].t0, dt |-> Log[i].dt, span |-> Log[i].span, s |-> Log[i].s])

\* Clauses checked in every state of the replay and at its end
Running == \A k \in DOMAIN saved : k <= Len(Log[i].saved) => Log[i].saved[k] = Time(cfg, saved[k])
Visited(k) == \E j \in DOMAIN Log[i].visited : Log[i].visited[j] = k
OnLattice(t) == (t - cfg.t0) >= 0 /\ (t - cfg.t0) % cfg.dt = 0 /\ t <= Time(cfg, n + 1)

Final == CASE Log[i].final # Time(cfg, n) -> "final time"
           [] Len(Log[i].saved) # Len(saved) -> "number of saved states"
           [] ~Running -> "times of saved states"
           [] \E j \in DOMAIN Log[i].visited : ~OnLattice(Log[i].visited[j]) -> "visited time not on lattice"
           [] cfg.span > 0 /\ \E m \in 0..(n - 1) : ~Visited(Time(cfg, m)) -> "time step skipped"
           [] OTHER -> "ok"

Step == /\ verdict = "running" /\ pc # "done" /\ Next /\ UNCHANGED <<i, verdict>>
Finish == /\ verdict = "running" /\ pc = "done" /\ verdict' = Final
          /\ UNCHANGED <<vars, i>>
TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars /\ WF_tvars(TraceNext)

Total == <>(verdict # "running")
EmitVerdict == verdict # "running" => PrintT("@@" \o ToJson([i |-> i, verdict |-> verdict, n |-> n]))
=============================================================================
