----------------------------- MODULE Waveguide -----------------------------
(***************************************************************************)
(* Bands in which a piecewise linear profile is at least k. Row 0 is the   *)
(* north pole, row n the south pole; positions are counted in rows. Values *)
(* are integers or infinite (+-Inf), imaginary wavenumbers are negative.   *)
(* A scan from north to south maintains the open band; independently, the  *)
(* set is defined interval by interval.                                    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Ns, Finite, Ks
Inf == 1000000
VARIABLES ks, k, row, active, start, guides
vars == <<ks, k, row, active, start, guides>>
n == Len(ks) - 1
V(j) == ks[j + 1]
IsInf(v) == v = Inf \/ v = 0 - Inf

Values == Finite \cup {Inf, 0 - Inf}
Init == /\ \E m \in Ns : ks \in [1..(m + 1) -> Values]
        /\ k \in Ks
        /\ row = 0 /\ active = (ks[1] >= k) /\ start = Zero /\ guides = <<>>
\* position where the line between rows j and j + 1 has the value k
Cross(j) ==
    LET a == V(j) b == V(j + 1) IN
    CASE IsInf(a) /\ IsInf(b) -> IF a > b THEN Q(j + 1) ELSE Q(j)
      [] IsInf(a) /\ ~IsInf(b) -> Q(j + 1)
      [] ~IsInf(a) /\ IsInf(b) -> Q(j)
      [] OTHER -> Add(Q(j), Norm(k - a, b - a))
Close == /\ row < n /\ active /\ V(row + 1) < k
         /\ guides' = Append(guides, <<start, Cross(row)>>) /\ active' = FALSE /\ row' = row + 1 /\ UNCHANGED <<ks, k, start>>
Open == /\ row < n /\ ~active /\ V(row + 1) > k
        /\ start' = Cross(row) /\ active' = TRUE /\ row' = row + 1 /\ UNCHANGED <<ks, k, guides>>
Pass == /\ row < n /\ ~(active /\ V(row + 1) < k) /\ ~(~active /\ V(row + 1) > k)
        /\ row' = row + 1 /\ UNCHANGED <<ks, k, start, guides, active>>
Pole == /\ row = n /\ active /\ guides' = Append(guides, <<start, Q(n)>>) /\ active' = FALSE /\ row' = n + 1 /\ UNCHANGED <<ks, k, start>>
End == /\ row = n /\ ~active /\ row' = n + 1 /\ UNCHANGED <<ks, k, start, guides, active>>
Next == Close \/ Open \/ Pass \/ Pole \/ End
Spec == Init /\ [][Next]_vars
Done == row = n + 1

\* Independent definition. Part of the interval j .. j + 1 in which the
\* profile exceeds k (closure; empty: <<>>) and where it is not below k.
\* Between infinities of different sign the crossing can be anywhere.
Above(j) ==
    LET a == V(j) b == V(j + 1) IN
    IF a <= k /\ b <= k THEN <<>>
    ELSE IF a >= k /\ b >= k THEN <<Q(j), Q(j + 1)>>
    ELSE IF IsInf(a) /\ IsInf(b) THEN <<>>
    ELSE IF a > k THEN IF IsInf(b) THEN <<>> ELSE <<Q(j), Cross(j)>>
    ELSE IF IsInf(a) THEN <<>> ELSE <<Cross(j), Q(j + 1)>>
NotBelow(j) ==
    LET a == V(j) b == V(j + 1) IN
    IF a >= k /\ b >= k THEN <<Q(j), Q(j + 1)>>
    ELSE IF a < k /\ b < k THEN <<>>
    ELSE IF IsInf(a) /\ IsInf(b) THEN <<Q(j), Q(j + 1)>>
    ELSE IF a >= k THEN <<Q(j), Cross(j)>>
    ELSE <<Cross(j), Q(j + 1)>>
Pieces(F(_)) == {F(j) : j \in 0..(n - 1)} \ {<<>>}
Inside(iv, c) == Leq(c[1], iv[1]) /\ Leq(iv[2], c[2])
Covered == \A iv \in Pieces(Above) : \E i \in DOMAIN guides : Inside(iv, guides[i])
\* every band, cut at the rows, is allowed
CutAt(g, j) == <<IF Less(g[1], Q(j)) THEN Q(j) ELSE g[1], IF Less(Q(j + 1), g[2]) THEN Q(j + 1) ELSE g[2]>>
NoMore == \A i \in DOMAIN guides : \A j \in 0..(n - 1) :
             LET c == CutAt(guides[i], j) IN Less(c[1], c[2]) => NotBelow(j) # <<>> /\ Inside(c, NotBelow(j))
\* bands on both sides of a row below k, reached from infinities
Touch(x, y) == x = y /\ x[2] = 1 /\ V(x[1]) < k
Ordered == \A i \in DOMAIN guides : Leq(guides[i][1], guides[i][2]) /\ (i > 1 => Less(guides[i - 1][2], guides[i][1]) \/ Touch(guides[i - 1][2], guides[i][1]))
Bounds == \A i \in DOMAIN guides : Leq(Zero, guides[i][1]) /\ Leq(guides[i][2], Q(n))
Correct == Done => Covered /\ NoMore
\* the whole sphere, or nothing
Extremes == Done => /\ (\A j \in 0..n : V(j) >= k) => guides = << <<Zero, Q(n)>> >>
                    /\ (\A j \in 0..n : V(j) < k) => guides = <<>>
\* Nothing is left to interpretation: no value equals k, no opposite infinities side by side
Strict == /\ \A j \in 0..n : V(j) # k
          /\ \A j \in 0..(n - 1) : ~(IsInf(V(j)) /\ IsInf(V(j + 1)) /\ V(j) # V(j + 1))
FiniteSmall == {-2, 0, 1, 3}
SeqOf(F(_)) == [j \in 1..n |-> F(j - 1)]
Emit == Done => PrintT("@@" \o ToJson([ks |-> ks, k |-> k, guides |-> guides, strict |-> Strict,
                                       above |-> SeqOf(Above), notbelow |-> SeqOf(NotBelow)]))
=============================================================================
