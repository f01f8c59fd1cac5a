------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* A latitude circle with N gridpoints, as a superposition of waves        *)
(*     SUM_k a[k] cos(2 pi (k j / N + p[k] / P)),     j = 0 ... N-1        *)
(* below the Nyquist wavenumber, with a range of wavenumbers (inclusive).  *)
(* P is a multiple of N. The squared envelope is an element of the group   *)
(* ring Z[Z_P]: the sum of env2[t] times cos(2 pi t / P).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, P, Amps, Phases, MaxSteps
ASSUME P % N = 0
VARIABLES a, p, lo, hi, a0, p0, shift, carrier, steps
vars == <<a, p, lo, hi, a0, p0, shift, carrier, steps>>

Waves == 0..(N \div 2 - 1)
\* A = <<amplitudes>>, F = <<phases>>, functions on the wavenumbers
Band(A, l, h) == {k \in DOMAIN A : l <= k /\ k <= h /\ A[k] # 0}
RECURSIVE SumOver(_)
SumOver(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN f[x] + SumOver([y \in DOMAIN f \ {x} |-> f[y]])
\* spectrum of wavenumber pairs by phase difference at gridpoint j
Angle(n, q, F, k, l, j) == ((k - l) * j * (q \div n) + F[k] - F[l]) % q
Env2(n, q, A, F, l, h, j) ==
    LET B == Band(A, l, h)
        at(t) == SumOver([kk \in {kk \in B \X B : Angle(n, q, F, kk[1], kk[2], j) = t} |-> A[kk[1]] * A[kk[2]]])
    IN [t \in 0..(q - 1) |-> at(t)]
Power(A, l, h) == SumOver([k \in Band(A, l, h) |-> A[k] * A[k]])
\* A mean counts twice in a one-sided spectrum: it must not decide
Decided(A, l, h) == \E k \in Band(A, l, h) : \A m \in Band(A, l, h) \ {k} : A[m] < A[k] /\ (m = 0 => 2 * A[m] < A[k])
Dominant(A, l, h) == CHOOSE k \in Band(A, l, h) : \A m \in Band(A, l, h) : A[m] <= A[k]

Init == /\ a \in [Waves -> Amps]
        /\ p \in {f \in [Waves -> Phases] : (\A k \in Waves : a[k] = 0 => f[k] = 0) /\ f[0] \in {0, P \div 2}}
        /\ lo \in Waves /\ hi \in lo..(N \div 2 + 1)
        /\ a0 = a /\ p0 = p /\ shift = 0 /\ carrier = 0 /\ steps = 0
\* Move the field by s gridpoints towards the east
Shift(s) == /\ steps < MaxSteps /\ steps' = steps + 1 /\ shift' = shift + s
            /\ p' = [k \in Waves |-> (p[k] - k * s * (P \div N)) % P]
            /\ UNCHANGED <<a, lo, hi, a0, p0, carrier>>
\* Increase all wavenumbers (and the range)
Carrier == /\ steps < MaxSteps /\ steps' = steps + 1 /\ carrier' = carrier + 1
           /\ a[0] = 0 /\ a[N \div 2 - 1] = 0 /\ hi < N \div 2
           /\ a' = [k \in Waves |-> IF k = 0 THEN 0 ELSE a[k - 1]]
           /\ p' = [k \in Waves |-> IF k = 0 THEN 0 ELSE p[k - 1]]
           /\ lo' = lo + 1 /\ hi' = hi + 1
           /\ UNCHANGED <<a0, p0, shift>>
Next == (\E s \in 1..(N - 1) : Shift(s)) \/ Carrier
Spec == Init /\ [][Next]_vars

Here(j) == Env2(N, P, a, p, lo, hi, j)
Before(j) == Env2(N, P, a0, p0, lo - carrier, hi - carrier, j % N)
\* the envelope moves with the field and does not depend on the carrier wave
EnvelopeMoves == \A j \in 0..(N - 1) : Here(j) = Before(j - shift)
DominantKept == Decided(a0, lo - carrier, hi - carrier) => Decided(a, lo, hi) /\ Dominant(a, lo, hi) = Dominant(a0, lo - carrier, hi - carrier) + carrier
Symmetric == \A j \in 0..(N - 1) : \A t \in 1..(P - 1) : Here(j)[t] = Here(j)[P - t]
\* a single wave has a constant envelope
Single == Cardinality(Band(a, lo, hi)) = 1 => \A j \in 0..(N - 1) : \A t \in 1..(P - 1) : Here(j)[t] = 0
MeanPower == \A j \in 0..(N - 1) : Here(j)[0] >= Power(a, lo, hi)
Table(n, q, A, F, l, h) == [j \in 1..n |-> LET e == Env2(n, q, A, F, l, h, j - 1) IN [t \in 1..q |-> e[t - 1]]]
Emit == steps = 0 => PrintT("@@" \o ToJson([n |-> N, q |-> P, a |-> [k \in 1..(N \div 2) |-> a[k - 1]], p |-> [k \in 1..(N \div 2) |-> p[k - 1]], lo |-> lo, hi |-> hi,
            env2 |-> Table(N, P, a, p, lo, hi), decided |-> Decided(a, lo, hi),
            dom |-> IF Decided(a, lo, hi) THEN Dominant(a, lo, hi) ELSE 0]))
=============================================================================
