---------------------------- MODULE WindowWidth ----------------------------
(* Width (in hundredths of a gridpoint, no ties) to odd number of points.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxWidth
VARIABLES w, odd
Nearest(x) == (x + 50) \div 100
Odd(x) == x % 2 = 1
Init == /\ w \in {x \in 1..MaxWidth : x % 100 # 50 /\ x % 7 \in {0, 1}}
        /\ odd = CHOOSE m \in 1..(Nearest(w) + 2) : Odd(m) /\ m >= Nearest(w) /\ \A k \in 1..(m - 1) : Odd(k) => k < Nearest(w)
Spec == Init /\ [][FALSE]_<<w, odd>>
Smallest == Odd(odd) /\ odd >= Nearest(w) /\ (odd > 2 => odd - 2 < Nearest(w))
Emit == PrintT("@@" \o ToJson([w |-> w, odd |-> odd]))
=============================================================================
