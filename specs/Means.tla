------------------------------- MODULE Means -------------------------------
(***************************************************************************)
(* Area-weighted means. Row j (0: north pole .. n: south pole) has the     *)
(* weight A(j) of its zone as a symbol; a mean over both axes is a pair of *)
(* functions num, den from rows to numbers with the value                  *)
(* SUM num(j) A(j) / SUM den(j) A(j). Since means are linear, they are     *)
(* determined by their values for the fields that are 1 at one point.      *)
(*                                                                         *)
(* The state is a region that grows by disjoint blocks of rows or columns, *)
(* together with the accumulated sums.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, Blocks

VARIABLES n, point, rows, west, width, num, den, steps
vars == <<n, point, rows, west, width, num, den, steps>>

Cols(w, k) == {(w + i) % (2 * n) : i \in 0..(k - 1)}
At(r, c) == IF <<r, c>> = point THEN 1 ELSE 0
RowsOf(z) == z[1]..z[2]
\* sums over a block
Num(z, w, k) == [r \in 0..n |-> IF r \in RowsOf(z) /\ r = point[1] /\ point[2] \in Cols(w, k) THEN 1 ELSE 0]
Den(z, k) == [r \in 0..n |-> IF r \in RowsOf(z) THEN k ELSE 0]
Plus(a, b) == [r \in 0..n |-> a[r] + b[r]]

Init == /\ n \in Ns
        /\ point \in (0..n) \X (0..(2 * n - 1))
        /\ \E a, b \in 0..n : a <= b /\ rows = <<a, b>>
        /\ west \in 0..(2 * n - 1) /\ width \in 1..(2 * n)
        /\ (width = 2 * n => west = 0)
        /\ num = Num(rows, west, width) /\ den = Den(rows, width) /\ steps = <<>>

\* The mean of the union of disjoint blocks adds numerators and denominators
GrowEast(k) == /\ Len(steps) < Blocks /\ width + k <= 2 * n /\ (width + k = 2 * n => west = 0)
               /\ num' = Plus(num, Num(rows, west + width, k))
               /\ den' = Plus(den, Den(rows, k))
               /\ width' = width + k
               /\ steps' = Append(steps, [rows |-> rows, west |-> (west + width) % (2 * n), width |-> k])
               /\ UNCHANGED <<n, point, rows, west>>
GrowSouth(k) == /\ Len(steps) < Blocks /\ rows[2] + k <= n
                /\ LET z == <<rows[2] + 1, rows[2] + k>> IN
                   /\ num' = Plus(num, Num(z, west, width))
                   /\ den' = Plus(den, Den(z, width))
                   /\ rows' = <<rows[1], rows[2] + k>>
                   /\ steps' = Append(steps, [rows |-> z, west |-> west, width |-> width])
                /\ UNCHANGED <<n, point, west, width>>
Next == \E k \in 1..(2 * n) : GrowEast(k) \/ GrowSouth(k)
Spec == Init /\ [][Next]_vars

\* The accumulated sums are those of the grown region
Union == num = Num(rows, west, width) /\ den = Den(rows, width)
\* weights of all points add up to 1: the mean of a constant is the constant
RECURSIVE SumPts(_, _)
SumPts(S, r) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN 1 + SumPts(S \ {c}, r)
Constant == \A r \in 0..n : den[r] = IF r \in RowsOf(rows) THEN SumPts(Cols(west, width), r) ELSE 0
Bounded == \A r \in 0..n : num[r] <= den[r]

Seqn(f) == [r \in 1..(n + 1) |-> f[r - 1]]
Emit == PrintT("@@" \o ToJson([n |-> n, row |-> point[1], col |-> point[2], rows |-> rows, west |-> west, width |-> width,
                               num |-> Seqn(num), den |-> Seqn(den), steps |-> steps]))
=============================================================================
