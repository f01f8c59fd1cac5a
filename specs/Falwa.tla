-------------------------------- MODULE Falwa --------------------------------
(***************************************************************************)
(* Local wave activity: for each contour q, placed at the latitude y with  *)
(* the area of {PV >= q} to the north, and each meridian                   *)
(*     integral of (PV - q) over {PV >= q}                                 *)
(*   - integral of (PV - q) north of y                                     *)
(* The domains are those of Zonalize. The invariants are checked in the    *)
(* flat metric (rational) for all positions y of the cut.                  *)
(***************************************************************************)
EXTENDS Zonalize, IOUtils

At2(col, q2, k, t) == Add(Mul(Sub(One, t), Q(2 * col[k] - q2)), Mul(t, Q(2 * col[k + 1] - q2)))
SegInt(col, q2, s) == Mul(Mul(Add(At2(col, q2, s.i, s.a), At2(col, q2, s.i, s.b)), <<1, 2>>), Sub(s.b, s.a))
Integral(col, q2, ss) == SumQ([k \in DOMAIN ss |-> SegInt(col, q2, ss[k])])
Cap(k, t) == [x \in 1..(IF t = Zero THEN k - 1 ELSE k) |-> [i |-> x, a |-> Zero, b |-> IF x = k THEN t ELSE One]]
Activity(col, q2, k, t) == Sub(Integral(col, q2, SegsOf(Minus(col, q2), 1)), Integral(col, q2, Cap(k, t)))
Cuts(col) == (1..(Len(col) - 1)) \X {Zero, <<1, 2>>}

NonNegative == done # <<>> => \A c \in DOMAIN f : \A w \in Cuts(f[c]) : Leq(Zero, Activity(f[c], Cur.q2, w[1], w[2]))
Decreasing(col) == \A k \in 1..(Len(col) - 1) : col[k] >= col[k + 1]
\* Undisturbed: the contour is where the value is
Undisturbed == done # <<>> => \A c \in DOMAIN f : \A w \in Cuts(f[c]) :
    (Decreasing(f[c]) /\ At2(f[c], Cur.q2, w[1], w[2]) = Zero) => Activity(f[c], Cur.q2, w[1], w[2]) = Zero

ByColumn(g, q2) == [c \in DOMAIN g |-> [segs |-> SegsOf(Minus(g[c], q2), 1), boxes |-> SelectSeq([k \in DOMAIN g[c] |-> k], LAMBDA k : 2 * g[c][k] >= q2)]]
FEmit == todo = <<>> => PrintT("@@" \o ToJson([f |-> f, done |-> [k \in DOMAIN done |-> [q2 |-> done[k].q2, cols |-> ByColumn(f, done[k].q2)]]]))

Scen == ndJsonDeserialize(IOEnv.SCEN)
ScenInit == \E k \in DOMAIN Scen : f = Scen[k].f /\ todo = Scen[k].levels2 /\ done = <<>> /\ Rest
FScenSpec == ScenInit /\ [][Lower]_zvars
LevelsTiny == {0, 1, 2}
LevelsOdd == {0, 1, 2, 3}
=============================================================================
