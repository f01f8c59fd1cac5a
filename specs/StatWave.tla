------------------------------ MODULE StatWave ------------------------------
(***************************************************************************)
(* Squared stationary wavenumber of profiles of PV (f) and zonal wind (u). *)
(* Row j: cos^2 r (d / dlat) / u with d the derivative of Derivative.tla   *)
(* in grid units (southward); where 2 |u| <= thr2 (odd or 0) the           *)
(* sign of the PV gradient decides between the infinities, or zero.        *)
(***************************************************************************)
EXTENDS Derivative

CONSTANTS QVals, Strides, Offsets, Thresholds
VARIABLES u, thr2
svars == <<vars, u, thr2>>

\* northward gradient: indices increase towards the south
Grad(j) == Neg(out[j])
Small(j) == 2 * Abs(u[j]) <= thr2
RowOf(g, w, small) == IF ~small THEN [t |-> "finite", v |-> Div(g, Q(w))]
                      ELSE IF g[1] > 0 THEN [t |-> "+inf", v |-> Zero]
                      ELSE IF g[1] < 0 THEN [t |-> "-inf", v |-> Zero] ELSE [t |-> "finite", v |-> Zero]
Row(j) == RowOf(Grad(j), u[j], Small(j))

Wind(N, s, c) == [j \in 0..N |-> ((j * s + c) % 7) - 3]
StatInit == /\ n \in Ns /\ order \in Orders /\ prof = TRUE /\ ops = 0 /\ Allowed(n, order)
            /\ f \in [0..n -> QVals]
            /\ \E s \in Strides, c \in Offsets : u = Wind(n, s, c)
            /\ thr2 \in Thresholds
            /\ out = [j \in 0..n |-> At(n, order, j, prof, f)]
\* changes of a single PV value, of the wind and of the threshold
Bump == /\ ops < MaxOps /\ \E p \in 0..n : AddAt(p, 5) /\ UNCHANGED <<u, thr2>>
Reverse == /\ ops < MaxOps /\ ops' = ops + 1 /\ u' = [j \in 0..n |-> 0 - u[j]] /\ UNCHANGED <<n, order, prof, f, out, thr2>>
Loosen == /\ ops < MaxOps /\ ops' = ops + 1 /\ thr2' = (IF thr2 = 0 THEN 1 ELSE thr2 + 2) /\ UNCHANGED <<n, order, prof, f, out, u>>
StatNext == Bump \/ Reverse \/ Loosen
StatSpec == StatInit /\ [][StatNext]_svars

Sign(r) == IF r.t = "+inf" THEN 1 ELSE IF r.t = "-inf" THEN -1 ELSE IF r.v[1] > 0 THEN 1 ELSE IF r.v[1] < 0 THEN -1 ELSE 0
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Signs == \A j \in 0..n : Sign(Row(j)) = IF Small(j) THEN SgnI(Grad(j)[1]) ELSE SgnI(Grad(j)[1]) * SgnI(u[j])
Poles == Sign(Row(0)) = 0 /\ Sign(Row(n)) = 0
\* exchanging the hemispheres (PV is antisymmetric under reflection) changes nothing
Hemispheres == LET g == [j \in 0..n |-> 0 - f[n - j]]
               IN \A j \in 0..n : RowOf(Neg(At(n, order, n - j, prof, g)), u[j], Small(j)) = Row(j)
\* with all other things equal, the threshold can only make rows infinite or zero
Monotone == [][\A j \in 0..n : (thr2' > thr2 /\ UNCHANGED u /\ Row(j)'.t = "finite" /\ Row(j)'.v # Zero) => Row(j)' = Row(j)]_svars
\* reversing the wind reverses what is finite and keeps what is infinite
Reversed == [][(u' # u) => \A j \in 0..n : IF Small(j) THEN Row(j)' = Row(j) ELSE Row(j)'.v = Neg(Row(j).v)]_svars
QSmall == {-1, 0, 2}
EmitStat == (ops = 0) => PrintT("@@" \o ToJson([n |-> n, order |-> order, q |-> Seqn(f), u |-> Seqn(u), thr2 |-> thr2,
                rows |-> [j \in 1..(n + 1) |-> Row(j - 1)]]))
=============================================================================
