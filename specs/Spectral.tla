------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Spectral operators of Grid as linear operators on coefficients of       *)
(* spherical harmonics, on the unit sphere (the harness restores powers of *)
(* the radius from p, which counts factors r^2).                           *)
(*                                                                         *)
(*   x     current field: scalar [f], or vector with streamfunction psi    *)
(*         and velocity potential chi, as sequences of coefficients of the *)
(*         modes 1..Len(Deg), whose degrees are Deg                        *)
(*   prog  operators applied so far, hist the fields before each           *)
(*                                                                         *)
(* Ntr is the truncation; the initial field may contain degrees above it.  *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json

CONSTANTS Deg,        \* sequence of degrees of the modes
          Ntr,        \* truncation
          Starts,     \* set of initial coefficient sequences
          Scalars,    \* operators applicable to scalars
          Vectors,    \* operators applicable to vectors
          Depth

VARIABLES x, prog, hist
vars == <<x, prog, hist>>

M == 1..Len(Deg)
Eig(i) == Deg[i] * (Deg[i] + 1)
Null == [i \in M |-> Zero]
Cut(f) == [i \in M |-> IF Deg[i] > Ntr THEN Zero ELSE f[i]]
Map(f, G(_)) == [i \in M |-> IF Deg[i] > Ntr THEN Zero ELSE Mul(f[i], G(i))]

Scal(f, p) == [kind |-> "scalar", f |-> f, g |-> Null, p |-> p]
Vect(psi, chi, p) == [kind |-> "vector", f |-> psi, g |-> chi, p |-> p]

Laplace(f) == Map(f, LAMBDA i : Q(-Eig(i)))
\* (laplace - a) result = f; without a the mean is undetermined and set to 0
Poisson(f, a) == Map(f, LAMBDA i : IF Eig(i) = 0 /\ a[1] = 0 THEN Zero
                                   ELSE Inv(Neg(Add(Q(Eig(i)), a))))
Diffuse(f, k, order) == Map(f, LAMBDA i : Inv(Add(One, Mul(k, Pow(Q(Eig(i)), order)))))

\* An operator is a record [op, a, k, o]; operators that do not use a
\* parameter have a dummy there.
Apply(y, o) ==
    CASE o.op = "transform"  -> Scal(Cut(y.f), y.p)
      [] o.op = "laplace"    -> Scal(Laplace(y.f), y.p - 1)
      [] o.op = "poisson"    -> Scal(Poisson(y.f, o.a), y.p + 1)
      [] o.op = "diffusion"  -> Scal(Diffuse(y.f, o.a, o.k), y.p)
      [] o.op = "gradient"   -> Vect(Null, Cut(y.f), y.p)
      \* wind from vorticity a*y and divergence b*y
      [] o.op = "wind"       -> LET inv == Poisson(y.f, Zero)
                                IN Vect(Map(inv, LAMBDA i : Q(o.k)),
                                        Map(inv, LAMBDA i : o.a), y.p + 1)
      [] o.op = "vorticity"  -> Scal(Laplace(y.f), y.p - 1)
      [] o.op = "divergence" -> Scal(Laplace(y.g), y.p - 1)

Init == \E s \in Starts : x = Scal(s, 0) /\ prog = <<>> /\ hist = <<>>
Do(o) == /\ Len(prog) < Depth
         /\ x' = Apply(x, o) /\ prog' = Append(prog, o) /\ hist' = Append(hist, x)
Next == \/ x.kind = "scalar" /\ \E o \in Scalars : Do(o)
        \/ x.kind = "vector" /\ \E o \in Vectors : Do(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Op(name) == [op |-> name, a |-> Zero, k |-> 0]
DefaultScalars == {Op("transform"), Op("laplace"), Op("gradient"),
    [op |-> "poisson", a |-> Zero, k |-> 0], [op |-> "poisson", a |-> <<1, 2>>, k |-> 0],
    [op |-> "poisson", a |-> <<-5, 1>>, k |-> 0],
    [op |-> "diffusion", a |-> <<1, 4>>, k |-> 1], [op |-> "diffusion", a |-> <<1, 30>>, k |-> 2],
    [op |-> "diffusion", a |-> Zero, k |-> 1],
    [op |-> "wind", a |-> Zero, k |-> 1], [op |-> "wind", a |-> One, k |-> 0], [op |-> "wind", a |-> <<-1, 2>>, k |-> 2]}
MoreScalars == DefaultScalars \cup {
    [op |-> "poisson", a |-> <<40, 1>>, k |-> 0],
    [op |-> "diffusion", a |-> <<1, 1000>>, k |-> 3],
    [op |-> "wind", a |-> Q(3), k |-> -1]}
DefaultVectors == {Op("vorticity"), Op("divergence")}

QDeg == <<0, 1, 1, 2, 3, 4, 5, 7>>
QStarts == {<<Q(2), Q(1), Q(-3), Q(2), Q(1), Q(-2), Q(1), Q(4)>>,
            <<Zero, Zero, Q(1), Zero, Zero, Q(3), Zero, Zero>>}
\* Short waves on fine grids
FineDeg == <<1, 52, 87, 107, 118, 119, 120>>
FineStarts == {<<Q(1), Q(2), Q(-1), Q(1), Q(1), Q(-1), Q(2)>>, <<Zero, Zero, Zero, Q(1), Zero, Q(-2), Q(1)>>}
FineScalars == {Op("transform"), Op("laplace"), Op("gradient"), [op |-> "poisson", a |-> Zero, k |-> 0],
    [op |-> "diffusion", a |-> <<1, 4000>>, k |-> 1], [op |-> "wind", a |-> Zero, k |-> 1], [op |-> "wind", a |-> One, k |-> 0]}

-----------------------------------------------------------------------------
(* Properties: identities of the operators, checked on every program       *)
TypeOK == /\ x.kind \in {"scalar", "vector"}
          /\ \A i \in M : IsRat(x.f[i]) /\ IsRat(x.g[i])
Truncated == prog # <<>> => \A i \in M : Deg[i] > Ntr => x.f[i] = Zero /\ x.g[i] = Zero

L == Len(prog)
Is(j, name) == j >= 1 /\ prog[j].op = name
NoMean(f) == [i \in M |-> IF Deg[i] = 0 THEN Zero ELSE f[i]]
InverseInv ==
    L >= 2 =>
    LET y == hist[L - 1] IN
    /\ Is(L - 1, "poisson") /\ prog[L - 1].a = Zero /\ Is(L, "laplace") => x = [y EXCEPT !.f = NoMean(Cut(y.f))]
    /\ Is(L - 1, "laplace") /\ Is(L, "poisson") /\ prog[L].a = Zero => x = [y EXCEPT !.f = NoMean(Cut(y.f))]
    \* (laplace - a) undoes the solver, including the mean
    /\ Is(L - 1, "poisson") /\ prog[L - 1].a[1] # 0 /\ Is(L, "laplace") =>
          \A i \in M : Deg[i] <= Ntr => Sub(x.f[i], Mul(prog[L - 1].a, hist[L].f[i])) = y.f[i]
    /\ Is(L - 1, "gradient") /\ Is(L, "vorticity") => x.f = Null
    /\ Is(L - 1, "gradient") /\ Is(L, "divergence") => x = [y EXCEPT !.f = Laplace(y.f), !.p = y.p - 1]
    /\ Is(L - 1, "wind") /\ Is(L, "vorticity") => x = [y EXCEPT !.f = Map(NoMean(y.f), LAMBDA i : Q(prog[L - 1].k))]
    /\ Is(L - 1, "wind") /\ Is(L, "divergence") => x = [y EXCEPT !.f = Map(NoMean(y.f), LAMBDA i : prog[L - 1].a)]
DiffusionInv ==
    Is(L, "diffusion") => \A i \in M : Deg[i] <= Ntr =>
        LET a == hist[L].f[i] b == x.f[i] IN
        /\ a = Zero \/ (LET g == Div(b, a) IN g[1] > 0 /\ g[1] <= g[2])   \* damps every mode
        /\ Deg[i] = 0 \/ prog[L].a = Zero => a = b   \* conserves the mean

Emit == (L = Depth \/ (L > 0 /\ x.kind = "vector")) => PrintT("@@" \o ToJson(
    [start |-> IF hist = <<>> THEN x.f ELSE hist[1].f, ntr |-> Ntr, deg |-> Deg, prog |-> prog,
     steps |-> [j \in 1..L |-> IF j = L THEN x ELSE hist[j + 1]]]))
=============================================================================
