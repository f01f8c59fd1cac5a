---------------------------- MODULE GridIdentity ----------------------------
(***************************************************************************)
(* Grids as keys. A grid is described by its size, radius, rotation and    *)
(* truncation (0: default, which is the size). Grids are equal iff these   *)
(* agree; a mapping with grids as keys is a mapping of the descriptions.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Radii, Rotations, MaxGrids, Depth

VARIABLES made, table, log
vars == <<made, table, log>>

Truncs == {0, 1, 2}                    \* default, explicit default, smaller
Params == [n : Sizes, r : Radii, w : Rotations, t : Truncs]
Eff(p) == <<p.n, p.r, p.w, IF p.t = 2 THEN p.n - 1 ELSE p.n>>
Same(p, q) == Eff(p) = Eff(q)

Missing == 0
Value(p) == IF \E e \in table : e[1] = Eff(p) THEN (CHOOSE e \in table : e[1] = Eff(p))[2] ELSE Missing

Init == made = <<>> /\ table = {} /\ log = <<>>
New == /\ Len(made) < MaxGrids
       /\ \E p \in Params : made' = Append(made, p)
       /\ UNCHANGED <<table, log>>
Ops == Len(made) = MaxGrids /\ Len(log) < Depth
Put(i) == LET v == Len(log) + 1 IN
          /\ Ops /\ table' = {e \in table : e[1] # Eff(made[i])} \cup {<<Eff(made[i]), v>>}
          /\ log' = Append(log, [op |-> "put", i |-> i, got |-> v, size |-> Cardinality(table')])
          /\ UNCHANGED made
Get(i) == /\ Ops /\ log' = Append(log, [op |-> "get", i |-> i, got |-> Value(made[i]), size |-> Cardinality(table)])
          /\ UNCHANGED <<made, table>>
Del(i) == /\ Ops /\ Value(made[i]) # Missing
          /\ table' = {e \in table : e[1] # Eff(made[i])}
          /\ log' = Append(log, [op |-> "del", i |-> i, got |-> Value(made[i]), size |-> Cardinality(table')])
          /\ UNCHANGED made
Next == New \/ \E i \in DOMAIN made : Put(i) \/ Get(i) \/ Del(i)
Spec == Init /\ [][Next]_vars

Reflexive == \A i \in DOMAIN made : Same(made[i], made[i])
Symmetric == \A i, k \in DOMAIN made : Same(made[i], made[k]) = Same(made[k], made[i])
Transitive == \A i, k, l \in DOMAIN made : (Same(made[i], made[k]) /\ Same(made[k], made[l])) => Same(made[i], made[l])
OneEntry == \A e, f \in table : e[1] = f[1] => e = f
EqualGridsShareTheirEntry == \A i, k \in DOMAIN made : Same(made[i], made[k]) => Value(made[i]) = Value(made[k])

Classes == [i \in DOMAIN made |-> CHOOSE k \in DOMAIN made : Same(made[k], made[i]) /\ \A l \in DOMAIN made : Same(made[l], made[i]) => k <= l]
Emit == (Len(made) = MaxGrids /\ Len(log) = Depth) => PrintT("@@" \o ToJson([made |-> made, cls |-> Classes, log |-> log]))
=============================================================================
