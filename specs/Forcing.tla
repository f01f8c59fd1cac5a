------------------------------ MODULE Forcing -------------------------------
(***************************************************************************)
(* Algebra of forcing terms. A program makes terms (reg) from predefined   *)
(* and user-defined ones and combines them with + and *; every operand is  *)
(* any earlier term, so terms are shared and nested arbitrarily. Plain     *)
(* callables can be combined with a term but not with each other.          *)
(*                                                                         *)
(* The value of a term is an integer for every state and every point of    *)
(* the grid (two kinds of points). A state is its PV (the same everywhere) *)
(* and its time.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves, StatesOf, Depth, MaxVal

VARIABLES prog, val
vars == <<prog, val>>

Points == 1..2
SI == DOMAIN StatesOf
\* Leaves: [kind, a, b] with parameters
LeafValue(l, s, p) ==
    LET st == StatesOf[s] IN
    CASE l.kind \in {"field", "callable"} -> IF p = 1 THEN l.a ELSE l.b
      [] l.kind = "pv"       -> l.a * st.pv + l.b               \* user-defined, depends on the state
      [] l.kind = "time"     -> l.a * st.time + l.b             \* plain callable, depends on the time
      [] l.kind = "switch"   -> IF st.time <= l.a THEN 1 ELSE 0
      [] l.kind = "relax"    -> l.a * ((IF p = 1 THEN l.b ELSE -l.b) - st.pv)
IsTerm(l) == l.kind \notin {"callable", "time"}

Eval(l) == [s \in SI |-> [p \in Points |-> LeafValue(l, s, p)]]
Plus(x, y) == [s \in SI |-> [p \in Points |-> x[s][p] + y[s][p]]]
Times(x, y) == [s \in SI |-> [p \in Points |-> x[s][p] * y[s][p]]]
Small(x) == \A s \in SI, p \in Points : x[s][p] <= MaxVal /\ -MaxVal <= x[s][p]

Init == prog = <<>> /\ val = <<>>
Make(o, v) == prog' = Append(prog, o) /\ val' = Append(val, v) /\ Small(v)
NoLeaf == [kind |-> "none", a |-> 0, b |-> 0]
New == \E l \in Leaves : Make([op |-> "leaf", leaf |-> l, i |-> 0, j |-> 0, term |-> IsTerm(l)], Eval(l))
Combine ==
    \E i \in DOMAIN prog, j \in DOMAIN prog :
       /\ prog[i].term \/ prog[j].term
       /\ \/ Make([op |-> "+", leaf |-> NoLeaf, i |-> i, j |-> j, term |-> TRUE], Plus(val[i], val[j]))
          \/ Make([op |-> "*", leaf |-> NoLeaf, i |-> i, j |-> j, term |-> TRUE], Times(val[i], val[j]))
Next == Len(prog) < Depth /\ (New \/ Combine)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
L(k, a, b) == [kind |-> k, a |-> a, b |-> b]
QuickLeaves == {L("field", 2, -1), L("callable", -3, 1), L("pv", 1, 2), L("time", 1, 0), L("switch", 2, 0), L("relax", 2, 3)}
AllLeaves == QuickLeaves \cup {L("field", 0, 5), L("switch", -1, 0), L("switch", 3, 0), L("relax", -1, 0), L("pv", -2, 0)}
AllStates == <<[pv |-> 1, time |-> 0], [pv |-> -2, time |-> 2], [pv |-> 3, time |-> 3], [pv |-> 0, time |-> -1]>>
-----------------------------------------------------------------------------
(* Properties of the algebra *)
RECURSIVE Tree(_, _, _)
Tree(k, s, p) == LET o == prog[k] IN
    CASE o.op = "leaf" -> LeafValue(o.leaf, s, p)
      [] o.op = "+" -> Tree(o.i, s, p) + Tree(o.j, s, p)
      [] o.op = "*" -> Tree(o.i, s, p) * Tree(o.j, s, p)
SameExpression == \A k \in DOMAIN prog, s \in SI, p \in Points : val[k][s][p] = Tree(k, s, p)
Immutable == [][\A k \in DOMAIN prog : prog'[k] = prog[k] /\ val'[k] = val[k]]_vars
\* A switched term equals the term or vanishes, the latter only afterwards
Switched == \A k \in DOMAIN prog, s \in SI :
    prog[k].op = "*" /\ prog[prog[k].i].leaf.kind = "switch" =>
        IF StatesOf[s].time <= prog[prog[k].i].leaf.a THEN val[k][s] = val[prog[k].j][s] ELSE \A p \in Points : val[k][s][p] = 0

Emit == Len(prog) = Depth /\ prog[Depth].op # "leaf" => PrintT("@@" \o ToJson([prog |-> prog, val |-> val, states |-> StatesOf]))
=============================================================================
