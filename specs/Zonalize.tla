------------------------------ MODULE Zonalize ------------------------------
(***************************************************************************)
(* Areas enclosed by contours. The field is a sequence of meridians with   *)
(* integer values; the contours are lowered one after the other. For each  *)
(* contour the domain where the field reaches the value is the collection  *)
(* of the segments of all meridians (trapezoidal scheme) or the number of  *)
(* gridpoints per row (boxcounting). The latitude of a contour is that     *)
(* north of which the sphere has the area of the domain.                   *)
(***************************************************************************)
EXTENDS QuadDomain

CONSTANTS Cols, Rows, FieldVals, Levels2     \* levels in half units

LevelsSmall == -1..5
VARIABLES f, todo, done
zvars == <<f, todo, done, z, segs, boxes>>

\* values doubled, so contours between integers are possible
Minus(col, q2) == [k \in DOMAIN col |-> 2 * col[k] - q2]
RECURSIVE AllSegs(_, _, _)
AllSegs(g, q2, c) == IF c > Len(g) THEN <<>> ELSE SegsOf(Minus(g[c], q2), 1) \o AllSegs(g, q2, c + 1)
RowCount(g, q2) == [r \in 1..Len(g[1]) |-> Cardinality({c \in DOMAIN g : 2 * g[c][r] >= q2})]
Contour(g, q2) == [q2 |-> q2, segs |-> AllSegs(g, q2, 1), count |-> RowCount(g, q2)]

Values(g) == UNION {{g[c][r] : r \in DOMAIN g[c]} : c \in DOMAIN g}
FMax(g) == CHOOSE v \in Values(g) : \A w \in Values(g) : w <= v
FMin(g) == CHOOSE v \in Values(g) : \A w \in Values(g) : v <= w

RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A w \in S : w <= m IN <<m>> \o Desc(S \ {m})

Rest == z = <<>> /\ segs = <<>> /\ boxes = {}
Begin == /\ f \in [1..Cols -> [1..Rows -> FieldVals]]
         /\ todo = Desc(Levels2) /\ done = <<>> /\ Rest
Lower == /\ todo # <<>>
         /\ done' = Append(done, Contour(f, Head(todo)))
         /\ todo' = Tail(todo) /\ UNCHANGED <<f, z, segs, boxes>>
ZSpec == Begin /\ [][Lower]_zvars

Size(c) == Length(c.segs)
Last2 == Len(done) >= 2
Prev == done[Len(done) - 1]
Cur == done[Len(done)]
\* Domains are nested: the contours are ordered from north to south
Nested == Last2 => (Leq(Size(Prev), Size(Cur)) /\ \A r \in DOMAIN Cur.count : Prev.count[r] <= Cur.count[r])
\* Contours above the maximum are not reached, those up to the minimum are everywhere
Extremes == done # <<>> =>
    /\ Cur.q2 > 2 * FMax(f) => Cur.segs = <<>> /\ \A r \in DOMAIN Cur.count : Cur.count[r] = 0
    /\ Cur.q2 <= 2 * FMin(f) => Size(Cur) = Q(Len(f) * (Len(f[1]) - 1)) /\ \A r \in DOMAIN Cur.count : Cur.count[r] = Len(f)
    /\ Cur.q2 <= 2 * FMax(f) => \E r \in DOMAIN Cur.count : Cur.count[r] > 0
\* The order of the meridians does not matter
Rolled(g) == [c \in DOMAIN g |-> g[(c % Len(g)) + 1]]
Order == done # <<>> => (Size(Contour(Rolled(f), Cur.q2)) = Size(Cur) /\ RowCount(Rolled(f), Cur.q2) = Cur.count)

ZEmit == todo = <<>> => PrintT("@@" \o ToJson([f |-> f, done |-> done]))
=============================================================================
