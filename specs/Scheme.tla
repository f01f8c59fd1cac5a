------------------------------- MODULE Scheme -------------------------------
(***************************************************************************)
(* The filtered leapfrog scheme for the barotropic PV equation, in exact   *)
(* rational arithmetic, on a family of flows that the PV equation maps to  *)
(* itself: global mean M, solid-body part P*sin(lat) and waves of a single *)
(* degree N with orders Orders[i] (cosine and sine coefficients a[i] and   *)
(* b[i]). Two waves of the same degree do not interact, so                 *)
(*                                                                         *)
(*    da/dt = -K m b     db/dt = K m a     K = P/2 - Omega - P/(N(N+1))    *)
(*                                                                         *)
(* is exact. Time is measured in time steps, vorticity in 1/steps and      *)
(* length in radii.                                                        *)
(*                                                                         *)
(*   conf   forcing, diffusion, background, filter parameter               *)
(*   old, now, new  the PV of the last step                                *)
(*   hist   all results                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Confs, Starts, Depth

VARIABLES conf, hist
vars == <<conf, hist>>

\* PV: <<M, P, a1, b1, a2, b2>>
I6 == 1..6
VAdd(x, y) == [i \in I6 |-> Add(x[i], y[i])]
VSub(x, y) == [i \in I6 |-> Sub(x[i], y[i])]
VScale(s, x) == [i \in I6 |-> Mul(s, x[i])]
VZero == [i \in I6 |-> Zero]

NN(c) == Q(c.n * (c.n + 1))
Omega(c) == c.omega

\* PV tendency of the advection
K(c, q) == Sub(Sub(Div(q[2], Q(2)), Omega(c)), Div(q[2], NN(c)))
Advection(c, q) ==
    LET k1 == Mul(K(c, q), Q(c.orders[1]))
        k2 == Mul(K(c, q), Q(c.orders[2]))
    IN <<Zero, Zero, Neg(Mul(k1, q[4])), Mul(k1, q[3]), Neg(Mul(k2, q[6])), Mul(k2, q[5])>>

\* Forcing: none, a constant field, one that is switched off after the time
\* toff, or a relaxation (field is the reference)
Forcing(c, q, t) ==
    CASE c.forcing = "none"  -> VZero
      [] c.forcing = "const" -> c.field
      [] c.forcing = "timed" -> IF t <= c.toff THEN c.field ELSE VZero
      [] c.forcing = "relax" -> VScale(c.rate, VSub(c.field, q))

Tendency(c, q, t) == VAdd(Advection(c, q), Forcing(c, q, t))

\* Implicit diffusion over k steps, acts on the deviation from the background
Eigenvalue(c, i) == CASE i = 1 -> Zero [] i = 2 -> Q(2) [] OTHER -> NN(c)
Diffuse(c, q, k) ==
    [i \in I6 |-> Add(c.bg[i], Div(Sub(q[i], c.bg[i]),
                                   Add(One, Mul(Mul(Q(k), c.diff), Pow(Eigenvalue(c, i), c.order)))))]

Euler(c, q, t) == Diffuse(c, VAdd(q, Tendency(c, q, t)), 1)
\* t is the time of now
Leap(c, old, now, t) == Diffuse(c, VAdd(old, VScale(Q(2), Tendency(c, now, t))), 2)
Filter(c, old, now, new) ==
    VAdd(VScale(Sub(One, Mul(Q(2), c.g)), now), VScale(c.g, VAdd(old, new)))

\* hist[i] = [op, t, old, now]: the pair of states after the operation, t is
\* the time of now
Init ==
    /\ conf \in Confs
    /\ \/ \E s \in Starts : hist = <<[op |-> "euler", t |-> 1, old |-> s, now |-> Euler(conf, s, 0)]>>
       \/ \E s \in Starts, r \in Starts : hist = <<[op |-> "pair", t |-> 1, old |-> s, now |-> r]>>

Last == hist[Len(hist)]
Next ==
    /\ Len(hist) < IF hist[1].op = "euler" THEN Depth ELSE 2
    /\ LET new == Leap(conf, Last.old, Last.now, Last.t)
       IN hist' = Append(hist, [op |-> "leapfrog", t |-> Last.t + 1,
                                old |-> Filter(conf, Last.old, Last.now, new), now |-> new])
    /\ UNCHANGED conf

Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Domain *)
R(n, d) == Norm(n, d)
S1 == <<Zero, R(1, 2), R(1, 3), Zero, R(-1, 4), R(1, 2)>>
S2 == <<R(1, 4), R(-1, 1), Zero, R(1, 2), Zero, R(-1, 1)>>
S3 == <<R(-1, 2), R(1, 4), R(1, 5), R(-1, 3), Zero, Zero>>
F1 == <<R(1, 8), R(-1, 4), R(1, 4), Zero, Zero, R(1, 2)>>
F2 == <<Zero, R(1, 1), Zero, R(1, 2), R(-1, 2), Zero>>
S4 == <<Zero, R(3, 4), Zero, Zero, Zero, Zero>>
AllStarts == {S1, S2, S3, S4}

NoForce == [forcing |-> "none", field |-> VZero, rate |-> Zero, toff |-> 0]
Force(k, f, r, t) == [forcing |-> k, field |-> f, rate |-> r, toff |-> t]
Forces == {NoForce, Force("const", F1, Zero, 0), Force("timed", F2, Zero, 1), Force("relax", F2, R(1, 4), 0)}
MoreForces == Forces \cup {Force("timed", F1, Zero, 0), Force("relax", F1, R(-1, 2), 0), Force("const", F2, Zero, 0)}

Geo(n, o, w) == [n |-> n, orders |-> o, omega |-> w]
Geos == {Geo(2, <<1, 2>>, R(1, 4)), Geo(3, <<2, 3>>, R(-1, 2)), Geo(4, <<1, 4>>, Zero)}
Diff(d, o, b) == [diff |-> d, order |-> o, bg |-> b]
Diffs == {Diff(Zero, 2, VZero), Diff(R(1, 12), 1, VZero), Diff(R(1, 8), 1, F2), Diff(R(1, 4), 1, S4)}
HighDiffs == {Diff(R(1, 16), 2, F1), Diff(R(1, 4), 2, VZero)}

Make(geo, force, dif, g) ==
    [n |-> geo.n, orders |-> geo.orders, omega |-> geo.omega,
     forcing |-> force.forcing, field |-> force.field, rate |-> force.rate, toff |-> force.toff,
     diff |-> dif.diff, order |-> dif.order, bg |-> dif.bg, g |-> g]
QuickConfs == {Make(geo, f, d, g) : geo \in Geos, f \in Forces, d \in Diffs, g \in {R(1, 5)}}
    \cup {Make(geo, f, d, g) : geo \in {Geo(3, <<2, 3>>, R(-1, 2))}, f \in {NoForce, Force("const", F1, Zero, 0)},
                               d \in {Diff(Zero, 2, VZero), Diff(R(1, 4), 2, F1)}, g \in {Zero, R(1, 2)}}
ThoroughConfs == {Make(geo, f, d, g) : geo \in Geos, f \in MoreForces, d \in Diffs, g \in {R(1, 5), Zero, R(1, 2)}}
    \cup {Make(geo, f, d, g) : geo \in {x \in Geos : x.n < 4}, f \in {NoForce, Force("const", F2, Zero, 0), Force("timed", F2, Zero, 1)},
                               d \in HighDiffs, g \in {R(1, 5), Zero, R(1, 2)}}
    \cup {Make(geo, f, Diff(R(1, 8), 3, b), R(1, 5)) : geo \in {x \in Geos : x.n = 2}, f \in {NoForce}, b \in {VZero, F2}}
-----------------------------------------------------------------------------
(* Properties                                                              *)
TypeOK == \A i \in DOMAIN hist : \A j \in I6 : IsRat(hist[i].old[j]) /\ IsRat(hist[i].now[j])
Unforced == conf.forcing = "none"
\* The global mean is conserved without forcing, whatever the diffusion
MeanConserved == Unforced /\ hist[1].op = "euler" =>
    \A i \in DOMAIN hist : hist[i].now[1] = hist[1].old[1] /\ hist[i].old[1] = hist[1].old[1]
\* Angular momentum (solid-body part) without forcing and diffusion
MomentumConserved == Unforced /\ conf.diff = Zero /\ hist[1].op = "euler" =>
    \A i \in DOMAIN hist : hist[i].now[2] = hist[1].old[2] /\ hist[i].old[2] = hist[1].old[2]
\* The unforced background is a fixed point if it has no waves
ZonalFixed == Unforced /\ hist[1].op = "euler" /\ hist[1].old = conf.bg /\ (\A j \in 3..6 : conf.bg[j] = Zero) =>
    \A i \in DOMAIN hist : hist[i].now = conf.bg
\* Without filter the states are untouched by the next step
NoFilter == conf.g = Zero => \A i \in 2..Len(hist) : hist[i].old = hist[i-1].now
\* The filter is a weighted mean: it keeps what is linear in time
FilterMean == \A i \in DOMAIN hist : i > 1 /\ VAdd(hist[i-1].old, hist[i].now) = VScale(Q(2), hist[i-1].now) => hist[i].old = hist[i-1].now

Done == Len(hist) = IF hist[1].op = "euler" THEN Depth ELSE 2
Emit == Done => PrintT("@@" \o ToJson([conf |-> conf, hist |-> hist]))
=============================================================================
