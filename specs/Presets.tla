------------------------------ MODULE Presets -------------------------------
(***************************************************************************)
(* Initial conditions. A zonally symmetric flow is described by its zonal  *)
(* wind: a polynomial in c = cos(lat), s = sin(lat) (set of [p, q, k] for  *)
(* k c^p s^q, in m/s), a multiple w of the wind omega r c which cancels    *)
(* the rotation of the planet, and jets (amplitude, center, width).        *)
(*                                                                         *)
(*   calls  the presets called so far                                      *)
(*   flows  the states they return; "refused" calls return none            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS N, Amplitudes, Centers, Widths, Depth, Times
VARIABLES calls, flows
vars == <<calls, flows>>

-----------------------------------------------------------------------------
(* Polynomials                                                             *)
Coef(P, p, q) == LET M == {t \in P : t.p = p /\ t.q = q} IN IF M = {} THEN Zero ELSE (CHOOSE t \in M : TRUE).k
Clean(P) == {t \in P : t.k # Zero}
PlusP(P, O) == Clean({[p |-> t.p, q |-> t.q, k |-> Add(Coef(P, t.p, t.q), Coef(O, t.p, t.q))] : t \in P \cup O})
TimesP(x, P) == Clean({[t EXCEPT !.k = Mul(x, @)] : t \in P})
Mono(p, q, k) == Clean({[p |-> p, q |-> q, k |-> k]})

\* Relative vorticity -1/(r c) d(u c)/dlat of c^p s^q (times r), p > 0
RECURSIVE Vorticity(_)
Vorticity(P) == IF P = {} THEN {} ELSE
    LET t == CHOOSE t \in P : TRUE IN
    PlusP(PlusP(Mono(t.p - 1, t.q + 1, Mul(Q(t.p + 1), t.k)), IF t.q = 0 THEN {} ELSE Mono(t.p + 1, t.q - 1, Mul(Q(-t.q), t.k))),
          Vorticity(P \ {t}))

-----------------------------------------------------------------------------
(* Weights of the bell at row i, at the North Pole and at the South Pole   *)
(* in the wind of a jet: the linear function removes the wind at the poles *)
Row(i) == [bell |-> One, north |-> Norm(i - N, N), south |-> Norm(-i, N)]

Rest == [poly |-> {}, w |-> Zero, jets |-> <<>>, mean |-> Zero]
Solid(a) == [Rest EXCEPT !.poly = Mono(1, 0, a)]
Held(a, b, c) == [Rest EXCEPT !.poly = PlusP(PlusP(Mono(1, 0, a), Mono(3, 0, Neg(b))), Mono(6, 2, c))]
Jet(a, c, d) == [Rest EXCEPT !.jets = <<[amplitude |-> a, center |-> c, width |-> d]>>]
Both(f, g) == [poly |-> PlusP(f.poly, g.poly), w |-> Add(f.w, g.w), jets |-> f.jets \o g.jets, mean |-> Zero]
\* PV that is a multiple of that of the resting atmosphere
Planetary(a) == [Rest EXCEPT !.w = Sub(a, One)]

Init == calls = <<>> /\ flows = <<>>
NoArgs == [a |-> Zero, b |-> Zero, c |-> Zero, i |-> 0, j |-> 0, why |-> ""]
Call(name, args, flow, t) ==
    /\ calls' = Append(calls, [name |-> name, args |-> args, time |-> t])
    /\ flows' = Append(flows, flow)
Refuse(why) == /\ calls' = Append(calls, [name |-> "refused", args |-> [NoArgs EXCEPT !.why = why], time |-> 0])
               /\ UNCHANGED flows
Next ==
    /\ Len(calls) < Depth
    /\ \/ \E t \in Times :
            \/ Call("motionless", NoArgs, Rest, t)
            \/ \E a \in Amplitudes :
                 \/ Call("solid_body_rotation", [NoArgs EXCEPT !.a = a], Solid(a), t)
                 \/ Call("planetary", [NoArgs EXCEPT !.a = a], Planetary(a), t)
                 \/ \E c \in Centers, d \in Widths : Call("gaussian_jet", [NoArgs EXCEPT !.a = a, !.b = c, !.c = d], Jet(a, c, d), t)
                 \/ \E b, c \in Amplitudes : Call("held_1985", [NoArgs EXCEPT !.a = a, !.b = b, !.c = c], Held(a, b, c), t)
            \/ \E i \in DOMAIN flows :
                 \/ Call("zonally_symmetric u", [NoArgs EXCEPT !.i = i], [flows[i] EXCEPT !.mean = Zero], t)
                 \/ \E m \in {Zero, One} : Call("zonally_symmetric pv", [NoArgs EXCEPT !.i = i, !.a = m], [flows[i] EXCEPT !.mean = m], t)
                 \/ \E j \in DOMAIN flows : i < j /\ Call("zonally_symmetric sum", [NoArgs EXCEPT !.i = i, !.j = j], Both(flows[i], flows[j]), t)
       \/ \E why \in {"both", "none", "too long", "too short", "field", "column", "row", "number", "empty", "longitudes"} : Refuse(why)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
QuickAmplitudes == {<<0, 1>>, <<-25, 2>>, <<30, 1>>}
AllAmplitudes == {<<0, 1>>, <<-25, 2>>, <<30, 1>>, <<15, 1>>}
QuickCenters == {<<45, 1>>, <<-60, 1>>}
AllCenters == {<<45, 1>>, <<-60, 1>>, <<0, 1>>, <<90, 1>>, <<-90, 1>>, <<-37, 2>>}
QuickWidths == {<<15, 1>>}
AllWidths == {<<10, 1>>, <<25, 2>>, <<40, 1>>}

\* No wind at the poles, by subtraction of a linear function (sign of row order checked by the poles)
NoWindAtPoles ==
    /\ Add(Row(0).bell, Row(0).north) = Zero /\ Row(0).south = Zero
    /\ Add(Row(N).bell, Row(N).south) = Zero /\ Row(N).north = Zero
    /\ \A i \in 1..(N - 1) : \A k \in {"north", "south"} : Add(Row(i - 1)[k], Row(i + 1)[k]) = Mul(Q(2), Row(i)[k])
\* (in all flows made of polynomials c^p appears with p > 0)
Regular == \A i \in DOMAIN flows : \A t \in flows[i].poly : t.p > 0 /\ t.k # Zero
Relations ==
    /\ Rest = Solid(Zero) /\ Rest = Planetary(One) /\ Held(Zero, Zero, Zero) = Rest
    /\ \A a \in Amplitudes : Held(a, Zero, Zero) = Solid(a) /\ Both(Solid(a), Solid(Neg(a))) = Rest
    /\ \A a, b, c \in Amplitudes : Vorticity(Held(a, b, c).poly) = PlusP(Vorticity(Solid(a).poly), Vorticity(Held(Zero, b, c).poly))
\* PV profiles and wind profiles describe the same flows
NeverMore == Len(flows) <= Len(calls)
Kept == [][SubSeq(flows', 1, Len(flows)) = flows /\ SubSeq(calls', 1, Len(calls)) = calls]_vars

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Out(f) == [poly |-> AsSeq(f.poly), vorticity |-> AsSeq(Vorticity(f.poly)), w |-> f.w, jets |-> f.jets, mean |-> f.mean]
HasJets == \E i \in DOMAIN flows : flows[i].jets # <<>>
Emit == Len(calls) = Depth => PrintT("@@" \o ToJson([n |-> N, calls |-> calls, flows |-> [i \in DOMAIN flows |-> Out(flows[i])],
            rows |-> IF HasJets THEN [i \in 1..(N + 1) |-> Row(i - 1)] ELSE <<>>]))
=============================================================================
