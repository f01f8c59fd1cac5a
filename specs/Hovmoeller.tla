----------------------------- MODULE Hovmoeller -----------------------------
(***************************************************************************)
(* Hovmoeller data: the profiles of a sequence of states side by side.     *)
(* Grid with Nlat latitudes and Nlon longitudes, f returns a profile of    *)
(* some length. field[row][column] holds <<state, gridpoint>>, rows belong *)
(* to y and columns to x. Contour levels of a field with extreme values lo *)
(* and hi (integers).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Nlat, Nlon, Pool, MaxStates, Lengths, Values, Numbers
VARIABLES states, out
vars == <<states, out>>
Nothing == [what |-> "nothing"]

Init == states = <<>> /\ out = Nothing
Append1(s) == out = Nothing /\ Len(states) < MaxStates /\ states' = Append(states, s) /\ UNCHANGED out

Time(i) == states[i].time
Diagram(len) ==
    IF states = <<>> \/ len \notin {Nlat, Nlon} THEN [what |-> "refused", length |-> len]
    ELSE IF len = Nlon
         THEN [what |-> "zonal", length |-> len, x |-> "longitude", y |-> "time",
               field |-> [r \in DOMAIN states |-> [c \in 1..Nlon |-> <<r, c>>]]]
         ELSE [what |-> "meridional", length |-> len, x |-> "time", y |-> "latitude",
               field |-> [r \in 1..Nlat |-> [c \in DOMAIN states |-> <<c, r>>]]]
Show(len) == out = Nothing /\ out' = Diagram(len) /\ UNCHANGED states

\* n levels between the extreme values -e and e
Extreme(lo, hi) == IF -lo > hi THEN -lo ELSE hi
Level(e, k, m) == Norm(e * (2 * (k - 1) - (m - 1)), m - 1)
Levels(lo, hi, ext, m) ==
    LET e == IF ext > 0 THEN ext ELSE Extreme(lo, hi) IN
    IF lo = 0 /\ hi = 0 /\ ext = 0 THEN [what |-> "levels", lo |-> 0, hi |-> 0, ext |-> 0, n |-> m, levels |-> << Q(-1), Q(1) >>]
    ELSE [what |-> "levels", lo |-> lo, hi |-> hi, ext |-> ext, n |-> m, levels |-> [k \in 1..m |-> Level(e, k, m)]]
Symmetric(lo, hi, ext, m) == states = <<>> /\ out = Nothing /\ lo <= hi /\ out' = Levels(lo, hi, ext, m) /\ UNCHANGED states

Next == \/ \E s \in Pool : Append1(s)
        \/ \E len \in Lengths : Show(len)
        \/ \E lo, hi \in Values, m \in Numbers, ext \in {0, 3, 40} : Symmetric(lo, hi, ext, m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Drawn == out.what \in {"zonal", "meridional"}
\* along time the states come in the order given, along the other axis the profile
AllOnce == Drawn => {out.field[r][c] : r \in DOMAIN out.field, c \in DOMAIN out.field[1]} = (DOMAIN states) \X (1..out.length)
Axes == Drawn => /\ Len(out.field) = (IF out.y = "time" THEN Len(states) ELSE out.length)
                 /\ Len(out.field[1]) = (IF out.x = "time" THEN Len(states) ELSE out.length)
                 /\ (out.x = "time") # (out.y = "time")
TimeOrder == Drawn => \A r \in DOMAIN out.field : \A c \in DOMAIN out.field[1] :
    out.field[r][c] = IF out.y = "time" THEN <<r, c>> ELSE <<c, r>>
Refused == states = <<>> => out.what \in {"nothing", "refused", "levels"}
AboutZero == out.what = "levels" => LET L == out.levels IN
    /\ \A k \in DOMAIN L : L[k] = Neg(L[Len(L) + 1 - k])
    /\ \A k \in 1..(Len(L) - 1) : Less(L[k], L[k + 1])
    /\ (out.ext = 0 => Leq(L[1], Q(out.lo)) /\ Leq(Q(out.hi), L[Len(L)]))
    /\ (out.ext = 0 => (Q(out.lo) = L[1] \/ Q(out.hi) = L[Len(L)] \/ (out.lo = 0 /\ out.hi = 0)))
    /\ (out.lo # 0 \/ out.hi # 0 \/ out.ext # 0) => Len(L) = out.n
Emit == out # Nothing => PrintT("@@" \o ToJson([states |-> [i \in DOMAIN states |-> states[i].id], out |-> out]))
States == {[id |-> 1, time |-> 3], [id |-> 2, time |-> 5], [id |-> 3, time |-> 4], [id |-> 4, time |-> 3]}
Extremes == {-7, -2, 0, 1, 7, 12}
=============================================================================
