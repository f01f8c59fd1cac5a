------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Region selection. Positions are measured in half grid steps: on the     *)
(* grid with 2n longitudes, longitude h is h/2 grid steps east of 0 and    *)
(* has a gridpoint if h is even; latitude h is h/2 grid steps north of the *)
(* equator and has a gridpoint if h - n is even. Odd offsets stand for any *)
(* position between two gridpoints.                                        *)
(*                                                                         *)
(* A selection is [kind, a, b]: "open", "range" (either bound can be       *)
(* omitted), "north", "south", "single" or "bad".                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, FewBounds

VARIABLES n, lat, lon, res
vars == <<n, lat, lon, res>>

None == 9999
Sel(k, a, b) == [kind |-> k, a |-> a, b |-> b]

LatIdx == {j \in 0..n : TRUE}                 \* from the north
LatPos(j) == n - 2 * j
LonIdx == 0..(2 * n - 1)
LonPos(i) == 2 * i

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Asc(S \ {m})

LatSel(s) ==
    CASE s.kind = "open"  -> Asc(LatIdx)
      [] s.kind = "north" -> Asc({j \in LatIdx : LatPos(j) >= 0})
      [] s.kind = "south" -> Asc({j \in LatIdx : LatPos(j) <= 0})
      [] s.kind = "single" -> Asc({j \in LatIdx : LatPos(j) = s.a})
      [] s.kind = "range" ->
            IF s.b = None THEN Asc({j \in LatIdx : LatPos(j) >= s.a})
            ELSE IF s.a = None THEN Asc({j \in LatIdx : LatPos(j) <= s.b})
            ELSE Asc({j \in LatIdx : (s.a <= LatPos(j) /\ LatPos(j) <= s.b) \/ (s.b <= LatPos(j) /\ LatPos(j) <= s.a)})
      [] OTHER -> <<>>
LonSel(s) ==
    CASE s.kind = "open"  -> Asc(LonIdx)
      [] s.kind = "single" -> Asc({i \in LonIdx : LonPos(i) = s.a})
      [] s.kind = "range" ->
            IF s.b = None THEN Asc({i \in LonIdx : LonPos(i) >= s.a})
            ELSE IF s.a = None THEN Asc({i \in LonIdx : LonPos(i) <= s.b})
            ELSE IF s.a <= s.b THEN Asc({i \in LonIdx : s.a <= LonPos(i) /\ LonPos(i) <= s.b})
            ELSE Asc({i \in LonIdx : LonPos(i) >= s.a}) \o Asc({i \in LonIdx : LonPos(i) <= s.b})
      [] OTHER -> <<>>

\* A single number must be a coordinate; hemispheres exist for latitudes only
Refused(la, lo) == \/ la.kind = "bad" \/ lo.kind \in {"bad", "north", "south"}
                   \/ la.kind = "single" /\ LatSel(la) = <<>>
                   \/ lo.kind = "single" /\ LonSel(lo) = <<>>

\* longitudes continuous across 0: those before the jump are reduced by a turn
Jump(s) == {k \in 1..(Len(s) - 1) : s[k] > s[k + 1]}
Mono(s) == [k \in DOMAIN s |-> IF \E j \in Jump(s) : k <= j THEN s[k] - 2 * n ELSE s[k]]

Result == IF Refused(lat, lon) THEN [refused |-> TRUE, lat |-> <<>>, lon |-> <<>>, mono |-> <<>>]
          ELSE [refused |-> FALSE, lat |-> LatSel(lat), lon |-> LonSel(lon), mono |-> Mono(LonSel(lon))]

\* all selections in one dimension
LatBounds == (-(n + 1)..(n + 1)) \cup {None}
LonBounds == (0..(4 * n - 1)) \cup {None}
\* numbers beyond the range of the coordinates, none of which are gridpoints: a
\* longitude is not taken modulo a turn, a latitude not reflected at the pole
LonBeyond == {-4 * n, -2 * n, -2, -1, 4 * n, 4 * n + 1, 4 * n + 2, 8 * n, 8 * n + 2}
LatBeyond == {-3 * n, -n - 2, n + 2, n + 4, 2 * n, 4 * n}
LatAll == {Sel("range", a, b) : a \in LatBounds, b \in LatBounds} \cup {Sel(k, 0, 0) : k \in {"open", "north", "south", "bad"}}
          \cup {Sel("single", a, 0) : a \in (LatBounds \ {None}) \cup LatBeyond}
LonAll == {Sel("range", a, b) : a \in LonBounds, b \in LonBounds} \cup {Sel(k, 0, 0) : k \in {"open", "north", "south", "bad"}}
          \cup {Sel("single", a, 0) : a \in (LonBounds \ {None}) \cup LonBeyond}
NoNone(S) == {s \in S : ~(s.kind = "range" /\ s.a = None /\ s.b = None)}
Few(S) == {s \in S : s.kind # "range" \/ (s.a \in FewBounds /\ s.b \in FewBounds)}

Init == /\ n \in Ns
        /\ \/ lat \in NoNone(LatAll) /\ lon \in {Sel("open", 0, 0), Sel("range", 3 * n, 2), Sel("single", 2, 0)}
           \/ lat \in {Sel("open", 0, 0), Sel("range", -1, 2), Sel("north", 0, 0)} /\ lon \in NoNone(LonAll)
           \/ lat \in NoNone(Few(LatAll)) /\ lon \in NoNone(Few(LonAll))
        /\ res = Result
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties *)
Ok == ~res.refused
\* no point twice, north to south
Distinct == /\ Cardinality({res.lat[k] : k \in DOMAIN res.lat}) = Len(res.lat)
            /\ Cardinality({res.lon[k] : k \in DOMAIN res.lon}) = Len(res.lon)
            /\ \A k \in 1..(Len(res.lat) - 1) : res.lat[k] < res.lat[k + 1]
Monotonic == \A k \in 1..(Len(res.mono) - 1) : res.mono[k] < res.mono[k + 1]
\* eastward from the first bound: every step of the selection is one gridpoint
Contiguous == Ok /\ lon.kind = "range" =>
    \A k \in 1..(Len(res.lon) - 1) : res.lon[k + 1] = (res.lon[k] + 1) % (2 * n)
OrderFree == lat.kind = "range" => LatSel(lat) = LatSel([lat EXCEPT !.a = IF lat.b = None \/ lat.a = None THEN lat.a ELSE lat.b,
                                                                !.b = IF lat.b = None \/ lat.a = None THEN lat.b ELSE lat.a])
\* swapping the bounds selects the complement, up to the bounds themselves
Complement == lon.kind = "range" /\ lon.a # None /\ lon.b # None /\ lon.a # lon.b =>
    LET s == LonSel(lon)  t == LonSel([lon EXCEPT !.a = lon.b, !.b = lon.a])
        A == {s[k] : k \in DOMAIN s}  B == {t[k] : k \in DOMAIN t}
    IN A \cup B = LonIdx /\ \A i \in A \cap B : LonPos(i) \in {lon.a, lon.b}
Hemispheres == LET N == LatSel(Sel("north", 0, 0))  T == LatSel(Sel("south", 0, 0))
               IN Len(N) = Len(T) /\ Len(N) + Len(T) = (n + 1) + (IF n % 2 = 0 THEN 1 ELSE 0)

Emit == PrintT("@@" \o ToJson([n |-> n, lat |-> lat, lon |-> lon, res |-> res]))
=============================================================================
