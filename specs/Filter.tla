------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* Zonal (periodic) and meridional (mirrored) convolution of an integer    *)
(* field with integer windows of odd length, applied one after the other.  *)
(* The field is a sequence of rows. Mirrored: ... b a | a b ... y z | z y  *)
(***************************************************************************)
EXTENDS Conv, FiniteSets, TLC, Json

CONSTANTS Rows, Cols, Vals, Windows, MaxOps
VARIABLES f0, f, prog
vars == <<f0, f, prog>>

Col(g, c) == [r \in DOMAIN g |-> g[r][c]]
Zon(g, w) == [r \in DOMAIN g |-> Conv(g[r], w, Ring)]
Mer(g, w) == LET cs == [c \in DOMAIN g[1] |-> Conv(Col(g, c), w, Mirror)]
             IN [r \in DOMAIN g |-> [c \in DOMAIN g[1] |-> cs[c][r]]]
Apply(g, o) == IF o.op = "zonal" THEN Zon(g, o.w) ELSE Mer(g, o.w)

Init == f0 \in [1..Rows -> [1..Cols -> Vals]] /\ f = f0 /\ prog = <<>>
\* Convolution is linear: impulses determine it
InitImpulse == \E p \in 1..Rows, q \in 1..Cols : f0 = [r \in 1..Rows |-> [c \in 1..Cols |-> IF r = p /\ c = q THEN 1 ELSE 0]] /\ f = f0 /\ prog = <<>>
Do(o) == Len(prog) < MaxOps /\ f' = Apply(f, o) /\ prog' = Append(prog, o) /\ UNCHANGED f0
Next == \E w \in Windows, op \in {"zonal", "meridional"} : Do([op |-> op, w |-> w])
Spec == Init /\ [][Next]_vars
SpecImpulse == InitImpulse /\ [][Next]_vars

RECURSIVE Run(_, _)
Run(g, p) == IF p = <<>> THEN g ELSE Run(Apply(g, Head(p)), Tail(p))
RECURSIVE SumW(_)
SumW(p) == IF p = <<>> THEN 1 ELSE Sum(Head(p).w, Len(Head(p).w)) * SumW(Tail(p))
Result == f = Run(f0, prog)
\* zonal and meridional filters commute, as do filters of the same kind where the domain is periodic
Swapped(p) == IF Len(p) < 2 THEN p ELSE <<p[2], p[1]>> \o SubSeq(p, 3, Len(p))
Commute == (Len(prog) >= 2 /\ (prog[1].op # prog[2].op \/ prog[1].op = "zonal")) => Run(f0, Swapped(prog)) = f
\* constants are multiplied with the sums of the windows
Constants == Run([r \in DOMAIN f0 |-> [c \in DOMAIN f0[1] |-> 3]], prog) = [r \in DOMAIN f0 |-> [c \in DOMAIN f0[1] |-> 3 * SumW(prog)]]
ZonalMean == (\A k \in DOMAIN prog : prog[k].op = "zonal") => \A r \in DOMAIN f : Sum(f[r], Len(f[r])) = SumW(prog) * Sum(f0[r], Len(f[r]))
\* a field without variation along a dimension is filtered only along the other one
Emit == (prog # <<>> /\ Len(prog) = MaxOps) => PrintT("@@" \o ToJson([f0 |-> f0, prog |-> prog, f |-> f]))
WindowsSmall == {<<1>>, <<1, 2, 1>>, <<1, 0, 0>>, <<2, 1, 0, 3, 5>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>}
=============================================================================
