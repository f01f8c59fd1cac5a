---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories: a record is a sequence of events      *)
(* [key, tok] where key identifies an operation with its inputs and tok    *)
(* what it returned (equal results have equal tokens). The first result of *)
(* an operation settles it for the rest of the history.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.SCEN)
VARIABLES i, pos, seen, verdict
vars == <<i, pos, seen, verdict>>

Event == Log[i].events[pos]
Init == i \in DOMAIN Log /\ pos = 1 /\ seen = [k \in {} |-> 0] /\ verdict = "running"
Accept == /\ verdict = "running" /\ pos <= Len(Log[i].events)
          /\ IF Event.key \in DOMAIN seen /\ seen[Event.key] # Event.tok
             THEN verdict' = "changed: " \o Event.key /\ UNCHANGED <<pos, seen>>
             ELSE /\ seen' = [k \in DOMAIN seen \cup {Event.key} |-> Event.tok + IF k \in DOMAIN seen THEN seen[k] - Event.tok ELSE 0]
                  /\ pos' = pos + 1 /\ UNCHANGED verdict
          /\ UNCHANGED i
Finish == verdict = "running" /\ pos > Len(Log[i].events) /\ verdict' = "ok" /\ UNCHANGED <<i, pos, seen>>
Spec == Init /\ [][Accept \/ Finish]_vars /\ WF_vars(Accept \/ Finish)
Decided == <>(verdict # "running")
\* nothing is forgotten or rewritten
Monotone == [][\A k \in DOMAIN seen : k \in DOMAIN seen' /\ seen'[k] = seen[k]]_vars
EmitVerdict == verdict # "running" => PrintT("@@" \o ToJson([i |-> i, verdict |-> verdict, n |-> Cardinality(DOMAIN seen)]))
=============================================================================
