----------------------------- MODULE OrogShape ------------------------------
(***************************************************************************)
(* Height of the orography on the points of a grid. Arrays are given on    *)
(* their own latitudes and longitudes (the latter from 0 to 360) and       *)
(* interpolated linearly in both directions; mountains are given by the    *)
(* normalised squared distance from their center (periodic in longitude).  *)
(* One behaviour is the placement of one orography on one grid; Turn moves *)
(* a mountain to another center longitude.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, PLin

CONSTANTS Arrays, Mountains, Grids, Turns

VARIABLES kind, conf, n, h
vars == <<kind, conf, n, h>>

\* the grid with 2n longitudes and n+1 latitudes
Lat(k, j) == Sub(Q(90), Norm(180 * (j - 1), k))
Lon(k, i) == Norm(360 * (i - 1), 2 * k)

\* orography array: lat, lon, values[row][column]
Bilinear(o, lat, lon) ==
    LET p == SortPerm(o.lat)
        ys == [i \in 1..Len(p) |-> o.lat[p[i]]]
        row(i) == Interp(o.lon, o.val[p[i]], lon)
    IN Interp(ys, [i \in 1..Len(p) |-> row(i)], lat)

\* signed distance in longitude, in [-180, 180)
Wrap(d) == LET s == Add(d, Q(180))
               k == s[1] \div (360 * s[2])
           IN Sub(Sub(s, Q(360 * k)), Q(180))
Sq(a) == Mul(a, a)
Distance2(m, lat, lon) ==
    Add(Sq(Div(Wrap(Sub(lon, m.lon)), m.slon)), Sq(Div(Sub(lat, m.lat), m.slat)))

Field(k, c, m) == [j \in 1..(m + 1) |-> [i \in 1..(2 * m) |->
    IF k = "array" THEN Bilinear(c, Lat(m, j), Lon(m, i)) ELSE Distance2(c, Lat(m, j), Lon(m, i))]]

Init == /\ n \in Grids
        /\ \/ kind = "array" /\ conf \in Arrays
           \/ kind = "mountain" /\ conf \in Mountains
        /\ h = Field(kind, conf, n)
\* Move the mountain by whole gridpoints
Turn(k) == /\ kind = "mountain"
           /\ conf' = [conf EXCEPT !.lon = Add(@, Lon(n, k + 1))]
           /\ h' = Field(kind, conf', n) /\ UNCHANGED <<kind, n>>
Next == \E k \in Turns : TLCGet("level") < 2 /\ Turn(k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
A(lat, lon, val) == [lat |-> [i \in DOMAIN lat |-> Q(lat[i])], lon |-> [i \in DOMAIN lon |-> Q(lon[i])],
                     val |-> [i \in DOMAIN val |-> [j \in DOMAIN val[i] |-> Q(val[i][j])]]]
AllArrays == {
    A(<<90, 0, -90>>, <<0, 90, 200, 360>>, <<<<0, 0, 0, 0>>, <<100, 500, -200, 100>>, <<30, 30, 30, 30>>>>),
    A(<<90, 50, 40, -15, -90>>, <<0, 360>>, <<<<0, 0>>, <<10, 10>>, <<900, 900>>, <<-100, -100>>, <<50, 50>>>>),
    A(<<-80, -10, 20, 70>>, <<0, 30, 60, 180, 300, 360>>,
      <<<<5, 10, 15, 0, 0, 5>>, <<0, 1000, 0, 200, 0, 0>>, <<7, 7, 7, 7, 7, 7>>, <<100, 0, 0, 0, 300, 100>>>>),
    A(<<85, 30, -85>>, <<0, 1, 359, 360>>, <<<<1, 2, 3, 1>>, <<40, -50, 60, 40>>, <<0, 0, 0, 0>>>>),
    A(<<-90, -60, -30, 0, 30, 60, 90>>, <<0, 120, 240, 360>>,
      <<<<0, 0, 0, 0>>, <<1, 2, 3, 1>>, <<-9, 8, 7, -9>>, <<4, 4, 5, 4>>, <<10, 20, 40, 10>>, <<6, 0, 6, 6>>, <<3, 3, 3, 3>>>>)}
M(lon, lat, slon, slat) == [lon |-> lon, lat |-> lat, slon |-> slon, slat |-> slat]
AllMountains == {M(Q(30), Q(45), Norm(15, 2), Q(20)), M(Q(0), Q(0), Q(20), Q(20)), M(Q(350), Q(-60), Q(40), Q(15)),
                 M(Q(-75), Q(90), Q(30), Q(10)), M(Norm(725, 2), Q(20), Q(60), Q(12)), M(Q(180), Q(-30), Q(25), Norm(45, 2)),
                 M(Q(-500), Q(10), Q(50), Q(30)), M(Q(-200), Q(-70), Q(35), Q(25)), M(Q(1000), Q(30), Q(45), Q(45))}
-----------------------------------------------------------------------------
(* Properties *)
Cells == {<<j, i>> : j \in 1..(n + 1), i \in 1..(2 * n)}
Hull == kind = "array" => \A c \in Cells :
    /\ \E r \in DOMAIN conf.val, s \in DOMAIN conf.lon : Leq(conf.val[r][s], h[c[1]][c[2]])
    /\ \E r \in DOMAIN conf.val, s \in DOMAIN conf.lon : Leq(h[c[1]][c[2]], conf.val[r][s])
Knots == kind = "array" => \A c \in Cells, r \in DOMAIN conf.lat, s \in DOMAIN conf.lon :
    (conf.lat[r] = Lat(n, c[1]) /\ conf.lon[s] = Lon(n, c[2])) => h[c[1]][c[2]] = conf.val[r][s]
Nearest == kind = "mountain" => \A c \in Cells :
    LET d == Wrap(Sub(Lon(n, c[2]), conf.lon)) IN Leq(Q(-180), d) /\ Less(d, Q(180))
\* the shape is the same wherever the mountain is centered
Translation == [][\A k \in Turns : conf'.lon = Add(conf.lon, Lon(n, k + 1)) =>
    \A c \in Cells : h'[c[1]][((c[2] + k - 1) % (2 * n)) + 1] = h[c[1]][c[2]]]_vars

Emit == PrintT("@@" \o ToJson([kind |-> kind, conf |-> conf, n |-> n, h |-> h]))
=============================================================================
