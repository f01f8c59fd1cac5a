---------------------------- MODULE FlowAlgebra -----------------------------
(***************************************************************************)
(* Construction and addition of atmospheric states. A state is its         *)
(* relative vorticity (integer coefficients of spherical harmonics, the    *)
(* first one is the global mean), the number of times planetary vorticity  *)
(* is contained in its PV, and its time.                                   *)
(*                                                                         *)
(*   reg   the states made so far, in order of creation                    *)
(*   prog  the operations that made them                                   *)
(*                                                                         *)
(* Flows are the inputs of constructors and additions: rel is relative     *)
(* vorticity, div is divergence (which a State cannot represent; it is     *)
(* part of wind inputs only).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Flows, Times, Depth

VARIABLES reg, prog
vars == <<reg, prog>>

K == DOMAIN (CHOOSE f \in Flows : TRUE).rel
NoMean(c) == [c EXCEPT ![1] = 0]
Plus(a, b) == [i \in K |-> a[i] + b[i]]

New(rel, planet, time) == [rel |-> rel, planet |-> planet, time |-> time]

\* Wind carries no information about the global mean; the divergent part is lost
FromWind(f, t)      == New(NoMean(f.rel), 1, t)
FromVorticity(f, t) == New(f.rel, 1, t)
FromPV(f, t)        == New(f.rel, 1, t)      \* input is planetary vorticity + f
AddWindState(a, b)  == New(NoMean(Plus(a.rel, b.rel)), 1, a.time)
AddWindField(a, f)  == New(NoMean(Plus(a.rel, f.rel)), 1, a.time)
\* PV of the left operand plus relative vorticity of the right one
AddVortState(a, b)  == New(Plus(a.rel, b.rel), a.planet, a.time)
AddVortField(a, f)  == New(Plus(a.rel, f.rel), a.planet, a.time)

Init == reg = <<>> /\ prog = <<>>

Step(op, i, j, f, t, state) ==
    /\ reg' = Append(reg, state)
    /\ prog' = Append(prog, [op |-> op, i |-> i, j |-> j, rel |-> f.rel, div |-> f.div, t |-> t])

NoFlow == [rel |-> [i \in K |-> 0], div |-> [i \in K |-> 0]]
R == DOMAIN reg
Next ==
    /\ Len(prog) < Depth
    /\ \/ \E f \in Flows, t \in Times :
            \/ Step("from_wind", 0, 0, f, t, FromWind(f, t))
            \/ Step("from_vorticity", 0, 0, f, t, FromVorticity(f, t))
            \/ Step("from_pv", 0, 0, f, t, FromPV(f, t))
       \/ \E i \in R, f \in Flows :
            \/ Step("add_wind_field", i, 0, f, 0, AddWindField(reg[i], f))
            \/ Step("add_vorticity_field", i, 0, f, 0, AddVortField(reg[i], f))
       \/ \E i \in R, j \in R :
            \/ Step("add_wind_state", i, j, NoFlow, 0, AddWindState(reg[i], reg[j]))
            \/ Step("add_vorticity_state", i, j, NoFlow, 0, AddVortState(reg[i], reg[j]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
F1 == [rel |-> <<0, 3, -2, 0, 5, 0, 1>>, div |-> <<0, 0, 4, 0, 0, -2, 0>>]
F2 == [rel |-> <<0, 0, 0, 4, 0, -3, 2>>, div |-> <<0, 0, 0, 0, 0, 0, 0>>]
F3 == [rel |-> <<2, -7, 1, 1, 0, 0, -1>>, div |-> <<0, 5, 0, 0, 0, 0, 3>>]
F4 == [rel |-> <<0, 0, 0, 0, 0, 0, 0>>, div |-> <<0, 0, 0, 0, 0, 0, 0>>]
QuickFlows == {F1, F3}
AllFlows == {F1, F2, F3, F4}
QuickTimes == {3}
AllTimes == {0, 3, 8}

-----------------------------------------------------------------------------
(* Properties                                                              *)
PlanetaryOnce == \A i \in R : reg[i].planet = 1
Same(a, b) == a.rel = b.rel /\ a.planet = b.planet
\* Addition is independent of the representation and commutative for flows
\* without global mean vorticity (times come from the left operand)
Symmetric == \A i \in R, j \in R :
    /\ Same(AddWindState(reg[i], reg[j]), AddWindState(reg[j], reg[i]))
    /\ Same(AddVortState(reg[i], reg[j]), AddVortState(reg[j], reg[i]))
    /\ NoMean(AddVortState(reg[i], reg[j]).rel) = AddWindState(reg[i], reg[j]).rel
\* The sum of all contributions, followed through the program
RECURSIVE Total(_)
Total(k) == LET o == prog[k] IN
    CASE o.op \in {"from_wind", "from_vorticity", "from_pv"} -> NoMean(o.rel)
      [] o.op \in {"add_wind_field", "add_vorticity_field"} -> Plus(Total(o.i), NoMean(o.rel))
      [] OTHER -> Plus(Total(o.i), Total(o.j))
RelativeIsSum == \A k \in R : NoMean(reg[k].rel) = Total(k)
RECURSIVE Origin(_)
Origin(k) == IF prog[k].i = 0 THEN prog[k].t ELSE Origin(prog[k].i)
TimeOfLeft == \A k \in R : reg[k].time = Origin(k)
Immutable == [][SubSeq(reg', 1, Len(reg)) = reg]_vars

Emit == Len(prog) = Depth => PrintT("@@" \o ToJson([prog |-> prog, reg |-> reg]))
=============================================================================
