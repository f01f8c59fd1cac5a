---------------------------- MODULE MeridInterp ----------------------------
(***************************************************************************)
(* Meridional interpolation: data at latitudes in any order, completed by  *)
(* values at the poles (which replace data given there). The result at a   *)
(* latitude is a combination (1-w) left + w right of two knots; knot 0 is  *)
(* the north pole, knot -1 the south pole, k >= 1 the k-th datum.          *)
(***************************************************************************)
EXTENDS PLin, TLC, Json

CONSTANTS Lats, MaxData, Grids
VARIABLES data, n, table
vars == <<data, n, table>>

LatsQuick == {-90, -72, -31, 0, 20, 45, 90}
LatsThorough == {-90, -77, -45, -30, -1, 15, 45, 62, 88, 90}
South == 0 - 1
Inner == {k \in DOMAIN data : data[k] # <<90, 1>> /\ data[k] # <<-90, 1>>}
Knots == {0, South} \cup Inner
Pos(k) == IF k = 0 THEN Q(90) ELSE IF k = South THEN Q(-90) ELSE data[k]
\* next knots at or north / south of x
NorthOf(x) == CHOOSE k \in Knots : Leq(x, Pos(k)) /\ \A m \in Knots : Leq(x, Pos(m)) => Leq(Pos(k), Pos(m))
SouthOf(x) == CHOOSE k \in Knots : Leq(Pos(k), x) /\ \A m \in Knots : Leq(Pos(m), x) => Leq(Pos(m), Pos(k))
Combine(x) == LET a == NorthOf(x)
                  b == SouthOf(x)
              IN IF a = b THEN [x |-> x, a |-> a, b |-> a, w |-> Zero]
                 ELSE [x |-> x, a |-> a, b |-> b, w |-> Div(Sub(Pos(a), x), Sub(Pos(a), Pos(b)))]
GridLats == [j \in 1..(n + 1) |-> Sub(Q(90), Mul(Q(j - 1), Norm(180, n)))]
Others == << <<179, 2>>, <<-179, 2>>, <<1, 3>>, <<41, 2>>, <<-64, 1>> >>
Points == GridLats \o Others \o data

Init == data = <<>> /\ n \in Grids /\ table = <<>>
AddDatum(l) == /\ table = <<>> /\ Len(data) < MaxData /\ Q(l) \notin {data[k] : k \in DOMAIN data}
               /\ data' = Append(data, Q(l)) /\ UNCHANGED <<n, table>>
Evaluate == table = <<>> /\ data # <<>> /\ table' = [i \in DOMAIN Points |-> Combine(Points[i])] /\ UNCHANGED <<data, n>>
Next == Evaluate \/ \E l \in Lats : AddDatum(l)
Spec == Init /\ [][Next]_vars

Weights == \A i \in DOMAIN table : Leq(Zero, table[i].w) /\ Less(table[i].w, One)
           /\ Add(Mul(Sub(One, table[i].w), Pos(table[i].a)), Mul(table[i].w, Pos(table[i].b))) = table[i].x
Reproduces == table # <<>> => \A k \in Inner : LET t == Combine(data[k]) IN t.a = k /\ t.w = Zero
Poles == table # <<>> => (Combine(Q(90)).a = 0 /\ Combine(Q(90)).w = Zero /\ Combine(Q(-90)).a = South)
\* Agrees with the general piecewise linear function of the sorted knots, for test values
Value(k) == IF k = 0 THEN Q(3) ELSE IF k = South THEN Q(-5) ELSE Q(k * k)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE k \in S : \A l \in S : Leq(Pos(k), Pos(l)) IN <<m>> \o Sorted(S \ {m})
SortedInterp == table # <<>> =>
    LET ks == Sorted(Knots)
        xs == [r \in DOMAIN ks |-> Pos(ks[r])]
        ys == [r \in DOMAIN ks |-> Value(ks[r])]
    IN \A i \in DOMAIN table :
         Interp(xs, ys, table[i].x) = Add(Mul(Sub(One, table[i].w), Value(table[i].a)), Mul(table[i].w, Value(table[i].b)))
Emit == table # <<>> => PrintT("@@" \o ToJson([n |-> n, data |-> data, table |-> table]))
=============================================================================
