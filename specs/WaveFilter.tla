----------------------------- MODULE WaveFilter -----------------------------
(***************************************************************************)
(* Filtering by wavenumber on a ring of N gridpoints. The Hann window at a *)
(* point extends over L gridpoints to both sides, L = points per           *)
(* wavelength of the wavenumber there (in quarters, limited to 1 .. N/2).  *)
(* The result is SUM_d H(L,d) S(d) / SUM_d H(L,d) with the symbols         *)
(* H(L,d) = (1 + cos(pi d / L)) / 2 and S(d) the sum of the two points at  *)
(* distance d (once for d = 0).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.SCEN)
VARIABLES f, k4, L, sums, pos
vars == <<f, k4, L, sums, pos>>

N == Len(f)
Clip(k) == IF k < 4 THEN 4 ELSE IF k > 2 * N THEN 2 * N ELSE k
Half(k) == (4 * N) \div Clip(k)
At(i) == f[((i - 1) % N) + 1]
S(i, l) == [d \in 1..(l + 1) |-> IF d = 1 THEN At(i) ELSE At(i + d - 1) + At(i - d + 1)]
Init == \E s \in DOMAIN Scen : f = Scen[s].f /\ k4 = Scen[s].k4 /\ pos = 0 /\ L = <<>> /\ sums = <<>>
Point == /\ pos < N /\ pos' = pos + 1
         /\ L' = Append(L, Half(k4[pos + 1]))
         /\ sums' = Append(sums, S(pos + 1, Half(k4[pos + 1])))
         /\ UNCHANGED <<f, k4>>
Spec == Init /\ [][Point]_vars

RECURSIVE Total(_, _)
Total(g, k) == IF k = 0 THEN 0 ELSE g[k] + Total(g, k - 1)
Range == \A i \in DOMAIN L : L[i] >= 2 /\ L[i] <= N
\* Uniform wavenumber: every point contributes equally, the zonal mean is kept
Uniform == \A i \in DOMAIN k4 : k4[i] = k4[1]
ZonalMean == (pos = N /\ Uniform) => \A d \in 1..(L[1] + 1) :
    Total([i \in 1..N |-> sums[i][d]], N) = (IF d = 1 THEN 1 ELSE 2) * Total(f, N)
\* larger wavenumbers have narrower windows
Ordered == \A i, j \in DOMAIN L : k4[i] <= k4[j] => L[i] >= L[j]
Emit == pos = N => PrintT("@@" \o ToJson([f |-> f, k4 |-> k4, L |-> L, sums |-> sums]))
=============================================================================
