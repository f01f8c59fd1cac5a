----------------------------- MODULE Orography ------------------------------
(***************************************************************************)
(* Evaluation of orographic forcing terms on states. A term has its own    *)
(* orography, wind option and parameters. The gradient of the orography is *)
(* remembered per term and grid in a cache of bounded size (equal grids    *)
(* share entries); results must be those of the term's own orography on    *)
(* the grid of the state in every history.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Terms, States, CacheSize, Depth

VARIABLES cache, hist
vars == <<cache, hist>>

\* States: [grid, class] where equal grids have the same class
TI == DOMAIN Terms
SI == DOMAIN States

Entry(t, s) == [term |-> t, class |-> States[s].class]
\* the gradient: orography h of the term on the class of grids
Gradient(e) == [h |-> Terms[e.term].h, class |-> e.class]

Evaluate(t, s) ==
    LET e == Entry(t, s)
        old == SelectSeq(cache, LAMBDA x : x.key = e)
        val == IF old # <<>> THEN old[1].val ELSE Gradient(e)
        rest == SelectSeq(cache, LAMBDA x : x.key # e)
        new == <<[key |-> e, val |-> val]>> \o rest
        p == Terms[t]
    IN /\ cache' = SubSeq(new, 1, IF Len(new) < CacheSize THEN Len(new) ELSE CacheSize)
       /\ hist' = Append(hist, [t |-> t, s |-> s,
            \* forcing = factor * f * (u * dh/dx + v * dh/dy)
            factor |-> Neg(Div(p.fact, p.H)), wind |-> p.wind, fcor |-> p.fcor,
            h |-> val.h, class |-> val.class])

Init == cache = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ \E t \in TI, s \in SI : Evaluate(t, s)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
T(h, w, f, s, c) == [h |-> h, wind |-> w, fact |-> f, H |-> s, fcor |-> c]
AllTerms == <<
    T("h1", "act", Q(1), Q(10000), "grid"), T("h1", "zon", Norm(1, 2), Q(8000), "grid"), T("h2", "sbr", Q(15), Q(10000), "grid"),
    T("h2", "act", Norm(-3, 4), Q(5000), "const"), T("h3", "zon", Q(1), Q(10000), "const"), T("h3", "sbr", Q(-20), Q(12000), "const"),
    T("h4", "act", Q(2), Q(10000), "grid"), T("gauss", "act", Q(1), Q(10000), "grid"), T("gauss", "zon", Norm(9, 10), Q(7500), "const"),
    T("gauss2", "sbr", Q(30), Q(10000), "grid"), T("sine", "sbr", Q(10), Q(10000), "const"), T("sine", "act", Q(1), Q(10000), "grid"),
    T("array", "act", Q(1), Q(9000), "grid"), T("array", "zon", Q(3), Q(10000), "grid"),
    T("h1", "zon", Q(0), Q(10000), "grid"), T("h2", "sbr", Q(0), Q(8000), "grid"), T("array", "act", Q(0), Q(10000), "const")>>
S(g, c) == [grid |-> g, class |-> c]
AllStates == <<S(1, 1), S(2, 2), S(3, 1), S(4, 3), S(5, 4), S(1, 1)>>
FewTerms == SubSeq(AllTerms, 1, 3) \o SubSeq(AllTerms, 8, 8) \o SubSeq(AllTerms, 11, 11) \o SubSeq(AllTerms, 15, 15)
FewStates == SubSeq(AllStates, 1, 3)
-----------------------------------------------------------------------------
OwnOrography == \A i \in DOMAIN hist : hist[i].h = Terms[hist[i].t].h
OwnGrid == \A i \in DOMAIN hist : hist[i].class = States[hist[i].s].class
Repeatable == \A i, j \in DOMAIN hist : hist[i].t = hist[j].t /\ hist[i].s = hist[j].s => hist[i] = hist[j]
CacheSound == /\ Len(cache) <= CacheSize
              /\ \A i \in DOMAIN cache : cache[i].val = Gradient(cache[i].key)
              /\ Cardinality({cache[i].key : i \in DOMAIN cache}) = Len(cache)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
