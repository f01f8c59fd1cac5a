---------------------------- MODULE FourierScen ----------------------------
(***************************************************************************)
(* Latitude circles from a file: the spectra of all rows of a field, the   *)
(* range, and a window by which the profile of dominant wavenumbers is     *)
(* smoothed (mirrored at the poles).                                       *)
(***************************************************************************)
EXTENDS Fourier, IOUtils, Conv
Scen == ndJsonDeserialize(IOEnv.SCEN)
VARIABLES job, row, out
\* waves come as a sequence for k = 0, 1, ...
Fun(s) == [k \in 0..(Len(s) - 1) |-> s[k + 1]]
ScenInit == /\ \E i \in DOMAIN Scen : job = Scen[i]
            /\ row = 0 /\ out = <<>>
            /\ a = <<>> /\ p = <<>> /\ lo = job.lo /\ hi = job.hi /\ a0 = <<>> /\ p0 = <<>> /\ shift = 0 /\ carrier = 0 /\ steps = 0
\* Like the mean, the shortest wave (two gridpoints) counts twice
DecidedRow(A) == \E k \in Band(A, lo, hi) : \A m \in Band(A, lo, hi) \ {k} : A[m] < A[k] /\ (m = 0 \/ 2 * m = job.n => 2 * A[m] < A[k])
RowStep == /\ row < Len(job.a) /\ row' = row + 1
           /\ LET A == Fun(job.a[row + 1]) F == Fun(job.p[row + 1])
              IN /\ Assert(DecidedRow(A), "tie")
                 /\ out' = Append(out, [dom |-> Dominant(A, lo, hi), env2 |-> IF row \in {job.look[i] : i \in DOMAIN job.look} THEN Table(job.n, job.q, A, F, lo, hi) ELSE <<>>])
           /\ UNCHANGED <<vars, job>>
ScenSpec == ScenInit /\ [][RowStep]_<<vars, job, row, out>>
Doms == [r \in DOMAIN out |-> out[r].dom]
InRange == \A r \in DOMAIN out : lo <= out[r].dom /\ out[r].dom <= hi
Smooth == Conv(Doms, job.w, Mirror)
\* a constant profile is not changed by smoothing, others stay between their bounds
SmoothBounds == row = Len(job.a) => \A r \in DOMAIN out : LET t == Sum(job.w, Len(job.w)) IN
    (\A s \in DOMAIN out : lo * t <= Smooth[s] /\ Smooth[s] <= hi * t)
EmitScen == row = Len(job.a) => PrintT("@@" \o ToJson([id |-> job.id, dom |-> Doms, smooth |-> Smooth, env2 |-> [r \in DOMAIN out |-> out[r].env2]]))
=============================================================================
