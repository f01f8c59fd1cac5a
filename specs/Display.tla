------------------------------ MODULE Display -------------------------------
(***************************************************************************)
(* What is displayed of models and forcing terms. Terms are made and       *)
(* combined, models are made, given other settings and displayed at any    *)
(* time in between. A text is a sequence of tokens.                        *)
(*                                                                         *)
(*   terms   [op, name, i, j] in the order they were made                  *)
(*   models  [order, coeff, rhs] with rhs = 0 for none                     *)
(*   shown   what the last action has displayed                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Orders, Coeffs, MaxModels, Depth

VARIABLES terms, models, prog, shown
vars == <<terms, models, prog, shown>>

RECURSIVE Text(_), Tree(_)
Text(k) == LET t == terms[k] IN
    IF t.op = "leaf" THEN <<t.name>> ELSE <<"(">> \o Text(t.i) \o <<t.op>> \o Text(t.j) \o <<")">>
Tree(k) == LET t == terms[k] IN
    IF t.op = "leaf" THEN <<"leaf", t.name>> ELSE <<t.op, Tree(t.i), Tree(t.j)>>

\* Reading: [tree, rest]
RECURSIVE Read(_)
Read(s) ==
    IF s[1] # "(" THEN [tree |-> <<"leaf", s[1]>>, rest |-> Tail(s)]
    ELSE LET a == Read(Tail(s))
             b == Read(Tail(a.rest))
         IN [tree |-> <<a.rest[1], a.tree, b.tree>>, rest |-> Tail(b.rest)]

NoText == [what |-> "none", k |-> 0, order |-> 0, coeff |-> 0, text |-> <<>>]
Did(o) == prog' = Append(prog, o)
Op(op, k, i, j, name) == [op |-> op, k |-> k, i |-> i, j |-> j, name |-> name]

Init == terms = <<>> /\ models = <<>> /\ prog = <<>> /\ shown = NoText

Leaf == \E n \in Names :
    /\ \A k \in DOMAIN terms : terms[k].name # n
    /\ terms' = Append(terms, [op |-> "leaf", name |-> n, i |-> 0, j |-> 0])
    /\ Did(Op("leaf", 0, 0, 0, n)) /\ UNCHANGED models /\ shown' = NoText
\* one of the operands must be a term (names with a small letter: plain callables)
IsTerm(k) == terms[k].op # "leaf" \/ terms[k].name \in {"A", "B", "C"}
Combine == \E i, j \in DOMAIN terms, o \in {"+", "*"} :
    /\ IsTerm(i) \/ IsTerm(j)
    /\ Len(Text(i)) + Len(Text(j)) <= 40
    /\ terms' = Append(terms, [op |-> o, name |-> "", i |-> i, j |-> j])
    /\ Did(Op(o, 0, i, j, "")) /\ UNCHANGED models /\ shown' = NoText
Make == \E o \in Orders, c \in Coeffs, r \in {0} \cup DOMAIN terms :
    /\ Len(models) < MaxModels
    /\ models' = Append(models, [order |-> o, coeff |-> c, rhs |-> r])
    /\ Did(Op("make", o, c, r, "")) /\ UNCHANGED terms /\ shown' = NoText
Change == \E m \in DOMAIN models :
    /\ \/ \E o \in Orders : o # models[m].order /\ models' = [models EXCEPT ![m].order = o] /\ Did(Op("order", m, o, 0, ""))
       \/ \E c \in Coeffs : c # models[m].coeff /\ models' = [models EXCEPT ![m].coeff = c] /\ Did(Op("coeff", m, c, 0, ""))
       \/ \E r \in {0} \cup DOMAIN terms : r # models[m].rhs /\ models' = [models EXCEPT ![m].rhs = r] /\ Did(Op("rhs", m, r, 0, ""))
    /\ UNCHANGED terms /\ shown' = NoText
ShowTerm == \E k \in DOMAIN terms :
    /\ terms[k].op # "leaf"
    /\ shown' = [NoText EXCEPT !.what = "term", !.k = k, !.text = Text(k)]
    /\ Did(Op("show term", k, 0, 0, "")) /\ UNCHANGED <<terms, models>>
ShowModel == \E m \in DOMAIN models :
    /\ shown' = [what |-> "model", k |-> m, order |-> 2 * models[m].order, coeff |-> models[m].coeff,
                 text |-> IF models[m].rhs = 0 THEN <<>> ELSE Text(models[m].rhs)]
    /\ Did(Op("show model", m, 0, 0, "")) /\ UNCHANGED <<terms, models>>
Next == Len(prog) < Depth /\ (Leaf \/ Combine \/ Make \/ Change \/ ShowTerm \/ ShowModel)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
QuickNames == {"A", "b"}
AllNames == {"A", "B", "C", "b", "c"}
AllOrders == {1, 2, 3, 5, 10}
\* indices of numbers of the harness
AllCoeffs == 1..6

\* The text determines the expression
ReadBack == \A k \in DOMAIN terms : LET r == Read(Text(k)) IN r.tree = Tree(k) /\ r.rest = <<>>
Distinct == \A i, j \in DOMAIN terms : Text(i) = Text(j) <=> Tree(i) = Tree(j)
\* The settings displayed are those of now, and displaying changes nothing
Current == shown.what = "model" => shown.order = 2 * models[shown.k].order /\ shown.coeff = models[shown.k].coeff
Harmless == [][shown'.what # "none" => UNCHANGED <<terms, models>>]_vars
\* (programs that display something at the end, where they end or can be extended to do so)
Emit == (shown.what # "none" /\ Len(prog) = Depth) => PrintT("@@" \o ToJson([prog |-> prog, texts |-> [k \in DOMAIN terms |-> Text(k)]]))
=============================================================================
