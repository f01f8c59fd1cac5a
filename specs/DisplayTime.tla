---------------------------- MODULE DisplayTime -----------------------------
(***************************************************************************)
(* Times as displayed: numbers in seconds, minutes, hours or days to a     *)
(* tenth. A clock advances; time is counted in ticks of 1/20 s, so that    *)
(* tenths and the ties between them are integers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Begin, Steps, Ticks

VARIABLES t, n
vars == <<t, n>>

Second == 20
Minute == 60 * Second
Hour == 60 * Minute
Day == 24 * Hour
Unit(x) == CASE x <= 120 * Second -> Second
             [] x > 120 * Second /\ x <= 120 * Minute -> Minute
             [] x > 120 * Minute /\ x <= 240 * Hour -> Hour
             [] OTHER -> Day
Name(u) == CASE u = Second -> "s" [] u = Minute -> "min" [] u = Hour -> "h" [] u = Day -> "d"
\* tenths of the unit: the next one, both at a tie
Ratio(x) == (10 * (x \div Unit(x))) + ((10 * (x % Unit(x))) \div Unit(x))
Rest(x) == (10 * (x % Unit(x))) % Unit(x)
Tenths(x) == LET r == Ratio(x) q == Rest(x) u == Unit(x) IN
    {r : y \in {z \in {0} : 2 * q <= u}} \cup {r + 1 : y \in {z \in {0} : 2 * q >= u}}

Init == t \in Begin /\ n = 0
Next == n < Ticks /\ n' = n + 1 /\ \E s \in Steps : t' = t + s
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Begins == {-5 * Day, -130 * Second, -1, 0, 59 * Second, 119 * Second, 120 * Second - 2, 59 * Minute + 57 * Second, 119 * Minute + 58 * Second,
           23 * Hour, 120 * Minute - 1, 239 * Hour + 59 * Minute, 240 * Hour - 1, 11 * Day, 100 * Day - 3, 1000 * Day}
QuickSteps == {1, 2, 7, Second, Minute + 1, Hour, Day}
AllSteps == {1, 2, 3, 7, 11, Second, 3 * Second, Minute, Minute + 1, Hour - 1, Hour, Day, 7 * Day}
Abs(x) == IF x < 0 THEN -x ELSE x

One == Cardinality(Tenths(t)) \in {1, 2} /\ (Cardinality(Tenths(t)) = 2 <=> 2 * Rest(t) = Unit(t))
\* within half a tenth of the unit (in twentieths of it)
Close == \A k \in Tenths(t) : Abs(t \div Unit(t) - k \div 10) <= 1
\* Two digits at least: errors below 2.5 per cent
Precise == t > 120 * Second => t >= 2 * Unit(t)
\* Short: never more than 240 units but days
Short == t > 0 /\ Unit(t) # Day => t <= 240 * Unit(t)
\* Later times are displayed as later (or the same); compared in units of the
\* first, which divides the second
Later == [][LET u == Unit(t) v == Unit(t') IN \A k \in Tenths(t), m \in Tenths(t') :
              (v \div u < 1000 /\ m < 20000) => (k <= m * (v \div u) \/ (u = v /\ Cardinality(Tenths(t)) = 2 /\ k = m + 1))]_vars
Emit == PrintT("@@" \o ToJson([t |-> t, unit |-> Name(Unit(t)), tenths |-> Tenths(t)]))
=============================================================================
