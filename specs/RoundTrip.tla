----------------------------- MODULE RoundTrip ------------------------------
(***************************************************************************)
(* States carried through other representations. The PV of a state is      *)
(*    c f1 + a F + m                                                       *)
(* with f1 the planetary vorticity of Earth, F a flow without global mean  *)
(* (one per state: id) and m the global mean. A planet is a pair of        *)
(* angular velocity and radius, as multiples of those of Earth (planet 1). *)
(*                                                                         *)
(*   planet  the one of the grid all states live on                        *)
(*   states  sequence of [id, time, c, a, m]                               *)
(*   prog    conversions so far                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Planets, Forms, MaxStates, Depth, Start

VARIABLES planet, states, prog, first
vars == <<planet, states, prog, first>>

Table == << [w |-> <<1, 1>>, r |-> <<1, 1>>], [w |-> <<2, 1>>, r |-> <<1, 1>>], [w |-> <<1, 2>>, r |-> <<1, 2>>],
            [w |-> <<0, 1>>, r |-> <<3, 1>>], [w |-> <<1, 1>>, r |-> <<5, 2>>] >>
W(p) == Table[p].w
R(p) == Table[p].r

\* A dataset holds one or more kinds of fields; wind is used before relative
\* vorticity, and that before PV
Used(form) == CASE form \in {"uv", "uv vo", "uv avo", "all"} -> "wind"
                [] form \in {"vo", "vo avo"} -> "vorticity"
                [] OTHER -> "pv"

Through(s, kind, p, q) ==
    CASE kind = "pv" -> s
      [] kind = "vorticity" -> [s EXCEPT !.c = Add(Sub(s.c, W(p)), W(q))]
      [] kind = "wind" -> LET f == Div(R(p), R(q))
                          IN [s EXCEPT !.c = Add(Mul(Sub(s.c, W(p)), f), W(q)), !.a = Mul(s.a, f), !.m = Zero]

Did(o) == prog' = Append(prog, o)
Convert(form, q) ==
    /\ states' = [i \in DOMAIN states |-> Through(states[i], Used(form), planet, q)]
    /\ planet' = q
    /\ Did([op |-> "dataset", form |-> form, planet |-> q, pick |-> <<>>])
\* there and back with falwa, on a given grid or (0) one that is derived
Falwa(q) ==
    /\ planet' = IF q = 0 THEN 1 ELSE q
    /\ UNCHANGED states
    /\ Did([op |-> "falwa", form |-> "", planet |-> q, pick |-> <<>>])
\* some of the states in some order
Pick(k) ==
    /\ states' = [i \in DOMAIN k |-> states[k[i]]]
    /\ UNCHANGED planet
    /\ Did([op |-> "pick", form |-> "", planet |-> planet, pick |-> k])

Picks == [n \in 1..MaxStates |-> {k \in UNION {[1..j -> 1..n] : j \in 1..n} :
            Cardinality({k[i] : i \in DOMAIN k}) = Len(k) /\ k # [i \in 1..n |-> i]}]
Init ==
    /\ planet \in Planets
    /\ \E n \in 1..MaxStates, m \in Start :
         states = [i \in 1..n |-> [id |-> i, time |-> i, c |-> W(planet), a |-> One, m |-> IF i = 1 THEN Q(m) ELSE Zero]]
    /\ prog = <<>>
    /\ first = [planet |-> planet, states |-> states]
Next ==
    /\ Len(prog) < Depth /\ UNCHANGED first
    /\ \/ \E form \in Forms, q \in Planets : Convert(form, q)
       \/ \E q \in {0} \cup Planets : Falwa(q)
       \/ (IF prog = <<>> THEN TRUE ELSE prog[Len(prog)].op # "pick") /\ \E k \in Picks[Len(states)] : Pick(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
QuickForms == {"uv", "vo", "avo"}
AllForms == {"uv", "vo", "avo", "pv", "uv vo", "uv avo", "vo avo", "all"}

\* As long as the planet is the same, only the mean can be lost, and it is by wind
Stays == \A k \in DOMAIN prog : prog[k].planet = first.planet
Wind == \E k \in DOMAIN prog : prog[k].op = "dataset" /\ Used(prog[k].form) = "wind"
Survive == Stays => \A i \in DOMAIN states : LET s == states[i] o == first.states[s.id] IN
    s.c = o.c /\ s.a = o.a /\ s.m = IF Wind THEN Zero ELSE o.m
\* Times (and states) are never mixed up
TimesStay == \A i \in DOMAIN states : states[i].time = states[i].id
NoneTwice == \A i, j \in DOMAIN states : i # j => states[i].id # states[j].id
SameNumber == (\A k \in DOMAIN prog : prog[k].op # "pick") => Len(states) = Len(first.states)
\* Without other contents than planetary vorticity there is no wind,
\* and vorticity and wind agree about everything but the mean
Consistent == \A i \in DOMAIN states : \A q \in Planets :
    LET a == Through(states[i], "wind", planet, q) b == Through(states[i], "vorticity", planet, q) IN
    /\ R(planet) = R(q) => (a.c = b.c /\ a.a = b.a)
    /\ states[i].c = W(planet) => a.c = W(q) /\ b.c = W(q)
    \* there and back
    /\ [Through(a, "wind", q, planet) EXCEPT !.m = states[i].m] = states[i]
    /\ Through(b, "vorticity", q, planet) = states[i]
Emit == Len(prog) = Depth => PrintT("@@" \o ToJson([first |-> [planet |-> first.planet, n |-> Len(first.states), m |-> first.states[1].m], prog |-> prog, planet |-> planet, states |-> states]))
=============================================================================
