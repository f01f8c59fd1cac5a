------------------------------ MODULE ModelRun ------------------------------
(***************************************************************************)
(* BarotropicModel.run as a state machine over time in integer ticks.      *)
(*                                                                         *)
(*   cfg    the call: start time t0, step dt, end time tend and save       *)
(*          interval s (0: do not save)                                    *)
(*   pc     "call", "loop", "done"                                         *)
(*   n      index of the current (filtered) state of the trajectory, its   *)
(*          valid time is t0 + n*dt                                        *)
(*   saved  indices of the saved states                                    *)
(*   due    next due save time (meaningful if s > 0)                       *)
(*                                                                         *)
(* The actions follow the code; the invariants state the properties C01    *)
(* and C02 in closed form, independent of the bookkeeping.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS T0s, Dts, Spans, Saves    \* sets of integers enumerated by Init

QuickT0s == {-5, 0, 7}
QuickSpans == {-2} \cup (-1)..7 \cup {9, 12}
ThoroughT0s == {-1000, -5, -1, 0, 1, 7, 86399}
ThoroughSpans == {-20, -2} \cup (-1)..10 \cup {12, 13, 16, 20, 24}

VARIABLES cfg, pc, n, saved, due
vars == <<cfg, pc, n, saved, due>>

Configs == [t0 : T0s, dt : Dts, span : Spans, s : Saves]

Time(c, i) == c.t0 + i * c.dt
Tend(c) == c.t0 + c.span

Init0(c) == /\ cfg = c /\ pc = "call" /\ n = 0 /\ saved = <<>> /\ due = 0

Init == \E c \in Configs : Init0(c)

\* The end lies before the start: nothing to integrate
Return == /\ pc = "call" /\ Tend(cfg) < cfg.t0
          /\ saved' = <<0>> /\ pc' = "done"
          /\ UNCHANGED <<cfg, n, due>>

\* First step with the Euler scheme, the start state is always saved
Euler == /\ pc = "call" /\ Tend(cfg) >= cfg.t0
         /\ saved' = <<0>> /\ due' = cfg.t0 + cfg.s /\ pc' = "loop"
         /\ UNCHANGED <<cfg, n>>

\* One leapfrog step, state n+1 becomes current
Leapfrog ==
    /\ pc = "loop" /\ Time(cfg, n) < Tend(cfg)
    /\ n' = n + 1
    /\ IF cfg.s > 0 /\ Time(cfg, n + 1) >= due
       THEN saved' = Append(saved, n + 1) /\ due' = due + cfg.s
       ELSE UNCHANGED <<saved, due>>
    /\ UNCHANGED <<cfg, pc>>

Stop == /\ pc = "loop" /\ Time(cfg, n) >= Tend(cfg)
        /\ pc' = "done" /\ UNCHANGED <<cfg, n, saved, due>>

Next == Return \/ Euler \/ Leapfrog \/ Stop

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties                                                              *)

TypeOK == /\ pc \in {"call", "loop", "done"} /\ n \in Nat
          /\ saved \in Seq(Nat)

Ceil(a, b) == -((-a) \div b)

\* C01: first time of the lattice that is not before the end
FinalIndex(c) == IF c.span <= 0 THEN 0 ELSE Ceil(c.span, c.dt)
HorizonInv == pc = "done" =>
    /\ n = FinalIndex(cfg)
    /\ Time(cfg, n) >= Tend(cfg)
    /\ n > 0 => Time(cfg, n - 1) < Tend(cfg)
NoOvershoot == n <= FinalIndex(cfg)

\* C02: closed form of the schedule. The k-th saved state is the first one
\* after the previous saved state that is not before t0 + k*s; the start time
\* does not occur.
RECURSIVE Schedule(_, _)
Schedule(c, k) ==
    IF k = 0 THEN 0
    ELSE LET prev == Schedule(c, k - 1)
             first == Ceil(k * c.s, c.dt)
         IN IF first > prev THEN first ELSE prev + 1
Expected(c, last) ==      \* all schedule entries up to index last
    IF c.s = 0 THEN <<0>>
    ELSE LET RECURSIVE Upto(_)
             Upto(k) == IF Schedule(c, k) > last THEN <<>>
                        ELSE <<Schedule(c, k)>> \o Upto(k + 1)
         IN Upto(0)
ScheduleInv == pc \in {"loop", "done"} => saved = Expected(cfg, n)
SavedIncreasing == \A i, j \in DOMAIN saved : i < j => saved[i] < saved[j]
StartSaved == pc # "call" => saved[1] = 0
\* every saved state but the first uses up exactly one due time
DueInv == pc = "loop" => due = cfg.t0 + Len(saved) * cfg.s

SavedGrows == [][Len(saved') >= Len(saved)
                 /\ SubSeq(saved', 1, Len(saved)) = saved]_vars
Terminates == <>(pc = "done")

-----------------------------------------------------------------------------
Emit == pc = "done" => PrintT("@@" \o ToJson(
    [t0 |-> cfg.t0, dt |-> cfg.dt, tend |-> Tend(cfg), s |-> cfg.s, n |-> n, saved |-> saved]))
=============================================================================
