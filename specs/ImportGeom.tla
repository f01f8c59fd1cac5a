----------------------------- MODULE ImportGeom -----------------------------
(***************************************************************************)
(* Horizontal coordinates of a dataset, in integer units of 360 / Circle   *)
(* degrees, edited step by step, and the order of the dimensions. Accepted *)
(* is exactly a regular global grid, from the north pole southwards and    *)
(* from 0 eastwards, with latitude and longitude as the last dimensions.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Circle, Spacings, MaxEdits
VARIABLES lon, lat, order, edits
vars == <<lon, lat, order, edits>>

Regular(d) == /\ lon = [i \in 1..(Circle \div d) |-> (i - 1) * d]
              /\ lat = [i \in 1..(((Circle \div d) \div 2) + 1) |-> (Circle \div 4) - (i - 1) * d]
Init == (\E d \in Spacings : Regular(d)) /\ order = <<"time", "lat", "lon">> /\ edits = <<>>
Drop(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
Swap(s, i) == [k \in DOMAIN s |-> IF k = i THEN s[i + 1] ELSE IF k = i + 1 THEN s[i] ELSE s[k]]
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Shift(s, c) == [k \in DOMAIN s |-> s[k] + c]
Half(s) == [k \in DOMAIN s |-> s[1] + (s[k] - s[1]) \div 2]
Every(s) == [k \in 1..((Len(s) + 1) \div 2) |-> s[2 * k - 1]]
Nudge(s, i) == [s EXCEPT ![i] = @ + 1]
Edited(s) == {<<"drop first", Drop(s, 1)>>, <<"drop last", Drop(s, Len(s))>>, <<"drop", Drop(s, 2)>>, <<"swap", Swap(s, 2)>>, <<"reverse", Reverse(s)>>,
              <<"shift", Shift(s, s[1] - s[2])>>, <<"shift half", Shift(s, 1)>>, <<"half", Half(s)>>, <<"every", Every(s)>>,
              <<"nudge first", Nudge(s, 1)>>, <<"nudge", Nudge(s, 3)>>, <<"nudge last", Nudge(s, Len(s))>>,
              <<"opposite", Shift(s, 0 - (Circle \div 2))>>, <<"negative", [k \in DOMAIN s |-> 0 - s[k]]>>}
More == Len(edits) < MaxEdits
EditLon == /\ More /\ Len(lon) > 3 /\ \E e \in Edited(lon) : lon' = e[2] /\ edits' = Append(edits, "lon " \o e[1]) /\ UNCHANGED <<lat, order>>
EditLat == /\ More /\ Len(lat) > 3 /\ \E e \in Edited(lat) : lat' = e[2] /\ edits' = Append(edits, "lat " \o e[1]) /\ UNCHANGED <<lon, order>>
Transpose == /\ More /\ order' \in {<<"lat", "lon", "time">>, <<"lon", "lat", "time">>, <<"time", "lon", "lat">>, <<"lat", "time", "lon">>, <<"time", "lat", "lon">>}
             /\ order' # order /\ edits' = Append(edits, "transpose") /\ UNCHANGED <<lon, lat>>
Next == EditLon \/ EditLat \/ Transpose
Spec == Init /\ [][Next]_vars

Uniform(s) == \A k \in 1..(Len(s) - 2) : s[k + 1] - s[k] = s[k + 2] - s[k + 1]
Valid == /\ order = <<"time", "lat", "lon">>
         /\ Uniform(lon) /\ Uniform(lat)
         /\ lon[2] > lon[1] /\ lon[1] = 0 /\ lon[Len(lon)] + (lon[2] - lon[1]) = Circle
         /\ lat[2] - lat[1] = lon[1] - lon[2] /\ 4 * lat[1] = Circle /\ 4 * lat[Len(lat)] = 0 - Circle
\* the accepted grids are the regular ones
Accepted == Valid => \E d \in 1..(Circle \div 4) : Regular(d)
Unedited == edits = <<>> => Valid
Emit == PrintT("@@" \o ToJson([circle |-> Circle, lon |-> lon, lat |-> lat, order |-> order, edits |-> edits, valid |-> Valid]))
=============================================================================
