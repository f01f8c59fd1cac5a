----------------------------- MODULE Derivative -----------------------------
(***************************************************************************)
(* Finite-difference stencils for the meridional derivative. Index 0 is    *)
(* the first latitude, n the last. The derivative at point j in units of   *)
(* the grid spacing is Coef * f / Div: a central stencil where it fits,    *)
(* otherwise the stencil on the outermost points. The coefficients are not *)
(* given but computed: derivative of the interpolating polynomial.         *)
(* The field is assembled from contributions of single points.             *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Ns, Orders, MaxOps, Vals

VARIABLES n, order, prof, f, out, ops
vars == <<n, order, prof, f, out, ops>>

Abs(a) == IF a < 0 THEN 0 - a ELSE a
\* Points of the stencil at j
Base(N, o, j) == LET h == o \div 2 IN IF j - h < 0 THEN 0 ELSE IF j + h > N THEN N - o ELSE j - h
RECURSIVE Prod(_, _)
Prod(S, w) == IF S = {} THEN One ELSE LET m == CHOOSE m \in S : TRUE IN Mul(w[m], Prod(S \ {m}, w))
RECURSIVE SumS(_, _)
SumS(S, w) == IF S = {} THEN Zero ELSE LET m == CHOOSE m \in S : TRUE IN Add(w[m], SumS(S \ {m}, w))
\* Derivative at x of the Lagrange polynomial of point p on the points b..b+o
LagrangeD(b, o, p, x) ==
    LET P == (b..(b + o)) \ {p}
    IN SumS(P, [m \in P |-> Mul(Norm(1, p - m), Prod(P \ {m}, [k \in P \ {m} |-> Norm(x - k, p - k)]))])
Coef(N, o, j, p) == LET b == Base(N, o, j) IN IF p < b \/ p > b + o THEN Zero ELSE LagrangeD(b, o, p, j)
At(N, o, j, pf, g) == IF pf /\ j \in {0, N} THEN Zero
                      ELSE LET b == Base(N, o, j) IN SumS(b..(b + o), [p \in b..(b + o) |-> Mul(Coef(N, o, j, p), Q(g[p]))])

Allowed(N, o) == N + 1 >= o + 1
Init == /\ n \in Ns /\ order \in Orders /\ prof \in BOOLEAN
        /\ f = [j \in 0..n |-> 0] /\ out = [j \in 0..n |-> Zero] /\ ops = 0
\* superposition: the contribution of a point is added to the derivative
AddAt(p, v) == /\ Allowed(n, order) /\ ops < MaxOps
               /\ f' = [f EXCEPT ![p] = @ + v]
               /\ out' = [j \in 0..n |-> Add(out[j], IF prof /\ j \in {0, n} THEN Zero ELSE Mul(Q(v), Coef(n, order, j, p)))]
               /\ ops' = ops + 1 /\ UNCHANGED <<n, order, prof>>
Next == \E p \in 0..n, v \in Vals : AddAt(p, v)
Spec == Init /\ [][Next]_vars

Linear == Allowed(n, order) => \A j \in 0..n : out[j] = At(n, order, j, prof, f)
PoleZero == prof => out[0] = Zero /\ out[n] = Zero
\* Exact for polynomials up to the order
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
Exact == (ops = 0 /\ Allowed(n, order) /\ n <= 12) => \A k \in 0..order : \A j \in 0..n :
            (~prof \/ j \notin {0, n}) => At(n, order, j, prof, [x \in 0..n |-> IPow(x - (n \div 2), k)]) = Q(IF k = 0 THEN 0 ELSE k * IPow(j - (n \div 2), k - 1))
\* The known coefficients (centered)
Known == (ops = 0 /\ Allowed(n, order)) => \A j \in (order \div 2)..(n - order \div 2) :
            [d \in 1..(order + 1) |-> Coef(n, order, j, j - order \div 2 + d - 1)] =
            IF order = 2 THEN << <<-1, 2>>, Zero, <<1, 2>> >> ELSE << <<1, 12>>, <<-2, 3>>, Zero, <<2, 3>>, <<-1, 12>> >>
\* Reversing the points changes the sign
Antisymmetric == Allowed(n, order) => \A j \in 0..n : At(n, order, n - j, prof, [x \in 0..n |-> f[n - x]]) = Neg(At(n, order, j, prof, f))

Seqn(g) == [j \in 1..(n + 1) |-> g[j - 1]]
Emit == (ops = MaxOps \/ ~Allowed(n, order)) =>
        PrintT("@@" \o ToJson([n |-> n, order |-> order, prof |-> prof, f |-> Seqn(f), out |-> Seqn(out), refused |-> ~Allowed(n, order)]))
=============================================================================
