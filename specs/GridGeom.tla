------------------------------ MODULE GridGeom ------------------------------
(***************************************************************************)
(* Coordinates of the regular grid with n intervals from pole to pole.     *)
(* Rational degrees. The area of a gridpoint is that of the zone between   *)
(* the latitudes north(j) and south(j), shared by the 2n gridpoints of the *)
(* row; sin(north) - sin(south) of contiguous zones telescopes to 2.       *)
(***************************************************************************)
EXTENDS Rat, TLC, Json

CONSTANTS Ns
VARIABLES n, j, rows, sofar
vars == <<n, j, rows, sofar>>

Res == Norm(180, n)
Lat(k) == Sub(Q(90), Mul(Q(k), Res))
Lon(i) == Mul(Q(i), Res)
Mid(k) == Sub(Q(90), Mul(Norm(2 * k + 1, 2), Res))      \* between rows k and k+1
North(k) == IF k = 0 THEN Q(90) ELSE Mid(k - 1)
South(k) == IF k = n THEN Q(-90) ELSE Mid(k)
Row(k) == [lat |-> Lat(k), north |-> North(k), south |-> South(k)]

\* Rows are added from the north pole to the south pole
Init == n \in Ns /\ j = 0 /\ rows = <<>> /\ sofar = Q(90)
AddRow == /\ j <= n
          /\ rows' = Append(rows, Row(j))
          /\ sofar' = South(j)
          /\ j' = j + 1 /\ UNCHANGED n
Next == AddRow \/ (j > n /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* The zones are contiguous, contain their latitude and end at the south pole
Contiguous == \A k \in 1..(Len(rows) - 1) : rows[k].south = rows[k + 1].north
Inside == \A k \in DOMAIN rows : Leq(rows[k].south, rows[k].lat) /\ Leq(rows[k].lat, rows[k].north) /\ Less(rows[k].south, rows[k].north)
Covered == j = n + 1 => (rows[1].north = Q(90) /\ sofar = Q(-90) /\ Len(rows) = n + 1)
Uniform == \A k \in 1..(Len(rows) - 1) : Sub(rows[k].lat, rows[k + 1].lat) = Res
Symmetric == j = n + 1 => \A k \in 1..(n + 1) : rows[k].lat = Neg(rows[n + 2 - k].lat)
FullTurn == Add(Lon(2 * n - 1), Res) = Q(360)
Emit == (j = n + 1) => PrintT("@@" \o ToJson([n |-> n, res |-> Res, rows |-> rows, lon |-> [i \in 1..(2 * n) |-> Lon(i - 1)]]))
=============================================================================
