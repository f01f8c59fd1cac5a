----------------------------- MODULE Container ------------------------------
(***************************************************************************)
(* The StateList container. Objects are named: 1, 2, 5 are states on grid  *)
(* a, 3 is a state on a grid equal to a, 4 is a state on grid b, 0 is not  *)
(* a state. A list is the sequence of the names of its states.             *)
(*                                                                         *)
(*   reg    the lists that exist                                           *)
(*   prog   the operations so far with their outcome: the number of the    *)
(*          list they made, 0 if the operation had to be refused           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool, MaxLen, Depth, Kinds, Steps

VARIABLES reg, prog
vars == <<reg, prog>>

GridOf(x) == CASE x \in {1, 2, 3, 5} -> "a" [] x = 4 -> "b" [] OTHER -> "none"
Valid(s) == /\ \A i \in DOMAIN s : s[i] # 0
            /\ \A i, j \in DOMAIN s : GridOf(s[i]) = GridOf(s[j])
Seqs(n) == UNION {[1..k -> Pool] : k \in 0..n}

Do(o, s) ==
    IF Valid(s) THEN /\ reg' = Append(reg, s)
                     /\ prog' = Append(prog, o @@ [out |-> Len(reg) + 1])
                ELSE /\ reg' = reg /\ prog' = Append(prog, o @@ [out |-> 0])

Init == reg = <<>> /\ prog = <<>>
Make(s) == Do([op |-> "make", i |-> 0, j |-> 0, seq |-> s], s)
Concat(i, j) == Do([op |-> "concat", i |-> i, j |-> j, seq |-> <<>>], reg[i] \o reg[j])
\* concatenation with a plain sequence of objects
Extend(i, s) == Do([op |-> "extend", i |-> i, j |-> 0, seq |-> s], reg[i] \o s)
\* copies and pickles are new lists of the same (or equal) states
Copy(i, k) == Do([op |-> k, i |-> i, j |-> 0, seq |-> <<>>], reg[i])
Next == /\ Len(prog) < Depth
        /\ \/ \E s \in Seqs(MaxLen) : Make(s)
           \/ \E i, j \in DOMAIN reg : Concat(i, j)
           \/ \E i \in DOMAIN reg, s \in Seqs(1) : Extend(i, s)
           \/ \E i \in DOMAIN reg, k \in {"copy", "deepcopy", "pickle", "list"} : Copy(i, k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Observations of a list s *)
\* Python index
At(s, k) == IF k < 0 THEN s[Len(s) + k + 1] ELSE s[k + 1]
InRange(s, k) == -Len(s) <= k /\ k < Len(s)
\* Python slice with positive step
Bound(s, k) == LET x == IF k < 0 THEN k + Len(s) ELSE k IN IF x < 0 THEN 0 ELSE IF x > Len(s) THEN Len(s) ELSE x
RECURSIVE Every(_, _, _, _)
Every(s, a, b, d) == IF a >= b THEN <<>> ELSE <<s[a + 1]>> \o Every(s, a + d, b, d)
Slice(s, a, b, d) == Every(s, Bound(s, a), Bound(s, b), d)

\* What a mapped function with results of the given kinds is collected in
Container(kinds) ==
    CASE \A i \in DOMAIN kinds : kinds[i] \in {"array"}   -> "array"
      [] \A i \in DOMAIN kinds : kinds[i] \in {"int", "float", "complex", "big"} -> "array"
      [] \A i \in DOMAIN kinds : kinds[i] = "state"   -> "statelist"
      [] OTHER -> "list"
\* the kinds of results of the function, by the name of the state
Assignments == {f \in [Pool \ {0} -> Kinds] : TRUE}
KindsOf(s, f) == [i \in DOMAIN s |-> f[s[i]]]

Observe(s) == [seq |-> s, len |-> Len(s),
    index |-> [k \in 1..(2 * Len(s)) |-> LET x == k - 1 - Len(s) IN <<x, At(s, x)>>],
    slices |-> {<<a, b, d, Slice(s, a, b, d)>> : a \in -2..2, b \in -1..3, d \in Steps},
    reversed |-> [k \in DOMAIN s |-> s[Len(s) + 1 - k]]]
-----------------------------------------------------------------------------
(* Properties *)
OnlyValid == \A i \in DOMAIN reg : Valid(reg[i])
Immutable == [][SubSeq(reg', 1, Len(reg)) = reg]_vars
SliceSane == \A i \in DOMAIN reg : Slice(reg[i], 0, Len(reg[i]), 1) = reg[i]
                /\ \A k \in 0..Len(reg[i]) : Slice(reg[i], 0, k, 1) \o Slice(reg[i], k, Len(reg[i]), 1) = reg[i]
Associative == \A i, j, k \in DOMAIN reg :
    Valid(reg[i] \o reg[j] \o reg[k]) => Valid(reg[i] \o reg[j]) \/ reg[j] = <<>>

Emit == Len(prog) = Depth => PrintT("@@" \o ToJson(
    [prog |-> prog, reg |-> reg, last |-> IF reg = <<>> THEN <<>> ELSE <<Observe(reg[Len(reg)])>>]))
\* decision table of the collection of results, over two states
EmitTable == prog = <<>> => \A f \in [1..3 -> Kinds] : \A n \in 0..3 :
    PrintT("@@" \o ToJson([table |-> TRUE, kinds |-> SubSeq(f, 1, n), container |-> Container(SubSeq(f, 1, n))]))
=============================================================================
