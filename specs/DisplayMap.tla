----------------------------- MODULE DisplayMap -----------------------------
(***************************************************************************)
(* Regions as displayed: bounds, number of gridpoints, and a map with 9    *)
(* rows (20 degrees each, from the north) and 36 columns (10 degrees each, *)
(* from 0 eastwards) in which the cells of the selection are marked.       *)
(***************************************************************************)
EXTENDS Region

\* Cells (with their edges) of a latitude 90 - 180 j / n and a longitude 180 i / n
RowsOf(j) == {r \in 0..8 : r * n <= 9 * j /\ 9 * j <= (r + 1) * n}
ColsOf(i) == {c \in 0..35 : c * n <= 18 * i /\ 18 * i <= (c + 1) * n}

May(s, Of(_)) == UNION {Of(s[k]) : k \in DOMAIN s}
\* (between two cells, either can be marked)
Must(s, Of(_)) == UNION {Of(s[k]) : k \in {x \in DOMAIN s : Cardinality(Of(s[x])) = 1}}
\* Hundredths of degrees: 100 * 180 * x / n
Hundredths(x) == LET q == 18000 * x IN {k \in {q \div n, q \div n + 1} : 2 * (k * n - q) <= n /\ 2 * (q - k * n) <= n}
Bounds == IF res.lat = <<>> THEN <<>> ELSE <<{9000 - k : k \in Hundredths(res.lat[Len(res.lat)])}, {9000 - k : k \in Hundredths(res.lat[1])}>>
BoundsLon == IF res.lon = <<>> THEN <<>> ELSE <<Hundredths(res.lon[1]), Hundredths(res.lon[Len(res.lon)])>>

Covered == /\ \A k \in DOMAIN res.lat : RowsOf(res.lat[k]) # {} /\ Cardinality(RowsOf(res.lat[k])) <= 2
           /\ \A k \in DOMAIN res.lon : ColsOf(res.lon[k]) # {} /\ Cardinality(ColsOf(res.lon[k])) <= 2
\* poles and the zero meridian are never between cells
Corners == RowsOf(0) = {0} /\ RowsOf(n) = {8} /\ ColsOf(0) = {0}
\* Nothing but the selection
Blank == (res.lat = <<>> => May(res.lat, RowsOf) = {}) /\ (res.lon = <<>> => May(res.lon, ColsOf) = {})
\* The displayed bounds are in order from south to north
Ordered == Bounds # <<>> => \A a \in Bounds[1], b \in Bounds[2] : a <= b + 1
OneNumber == /\ \A k \in DOMAIN Bounds : Cardinality(Bounds[k]) \in {1, 2}
             /\ \A k \in DOMAIN BoundsLon : Cardinality(BoundsLon[k]) \in {1, 2}
\* Larger grids: bounds at some distances from the corners
LatSome == {Sel("range", a, b) : a, b \in {-n, 3 - n, -1, 0, n \div 2, n}} \cup {Sel("open", 0, 0), Sel("single", n - 2, 0)}
LonSome == {Sel("range", a, b) : a, b \in {0, 1, n, 2 * n - 1, 3 * n, 4 * n - 4, 4 * n - 2}} \cup {Sel("open", 0, 0), Sel("single", 2, 0)}
InitSome == n \in Ns /\ lat \in LatSome /\ lon \in LonSome /\ res = Result
SpecSome == InitSome /\ [][Next]_vars

EmitMap == ~res.refused => PrintT("@@" \o ToJson([n |-> n, lat |-> res.lat, lon |-> res.lon, bounds |-> Bounds, boundsLon |-> BoundsLon,
    rows |-> [must |-> Must(res.lat, RowsOf), may |-> May(res.lat, RowsOf), each |-> {RowsOf(res.lat[k]) : k \in DOMAIN res.lat}],
    cols |-> [must |-> Must(res.lon, ColsOf), may |-> May(res.lon, ColsOf), each |-> {ColsOf(res.lon[k]) : k \in DOMAIN res.lon}]]))
=============================================================================
