-------------------------------- MODULE PLin --------------------------------
(* Piecewise linear functions with rational knots and values.              *)
EXTENDS Rat, FiniteSets

\* xs increasing. Constant continuation beyond the first and last knot.
Interp(xs, ys, x) ==
    IF Leq(x, xs[1]) THEN ys[1]
    ELSE IF Leq(xs[Len(xs)], x) THEN ys[Len(ys)]
    ELSE LET i == CHOOSE i \in 1..(Len(xs) - 1) : Leq(xs[i], x) /\ Less(x, xs[i + 1])
         IN Add(ys[i], Mul(Div(Sub(x, xs[i]), Sub(xs[i + 1], xs[i])), Sub(ys[i + 1], ys[i])))

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ascending(s) == \A i \in 1..(Len(s) - 1) : Less(s[i], s[i + 1])

\* Permutation that sorts distinct values in ascending order
SortPerm(s) ==
    [r \in 1..Len(s) |-> CHOOSE i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : Less(s[j], s[i])}) = r - 1]

MinQ(a, b) == IF Less(b, a) THEN b ELSE a
MaxQ(a, b) == IF Less(a, b) THEN b ELSE a
Sgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
=============================================================================
