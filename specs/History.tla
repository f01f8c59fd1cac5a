------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Histories of operations on shared objects. The objects remember things  *)
(* for speed only: states memoize derived fields, orographic forcing terms *)
(* remember gradients per grid (a bounded cache shared by all terms, least *)
(* recently used entry replaced). What an operation returns may depend on  *)
(* its own inputs only. Values are symbolic: the value of an operation is  *)
(* the tuple of everything that went into it.                              *)
(*                                                                         *)
(* A model can be configured anew; later runs use the new settings.        *)
(*                                                                         *)
(*   memo    state -> fields that are memoized with the value they have    *)
(*   cache   sequence of [term, grid, val], most recent first              *)
(*   conf    model -> settings, "" as created or "alt"                     *)
(*   hist    operations with the values they returned                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS States, Models, Fields, Steps, Depth, CacheSize, MaxRuns

VARIABLES memo, cache, conf, hist
vars == <<memo, cache, conf, hist>>

(* Objects *)
\* grids: name and class of equal grids
GridOf(s) == CASE s \in {"s1", "s2"} -> "g1" [] s = "s3" -> "g2" [] s = "s4" -> "g1b" [] s = "s5" -> "g1r" [] s = "s6" -> "g1t"
ClassOf(g) == CASE g = "g1b" -> "g1" [] OTHER -> g
\* terms with memory used by a model
\* (the alternative settings exchange the forcing)
TermsOf(m, c) ==
  IF c = "alt" THEN (CASE m = "m0" -> {"oro3"} [] m = "m1" -> {} [] m = "m2" -> {"oro1"} [] m = "m3" -> {"oro2"} [] m = "m4" -> {} [] OTHER -> {})
  ELSE CASE m = "m0" -> {} [] m = "m1" -> {"oro1"} [] m = "m2" -> {"oro1", "oro2"} [] m = "m3" -> {"oro3"} [] m = "m4" -> {"oro1"} [] OTHER -> {}
AllTerms == {"oro1", "oro2", "oro3"}
TimeOf(s) == CASE s = "s2" -> 5400 [] s = "s5" -> 900 [] s = "s6" -> 3600 [] OTHER -> 0
\* m4 has a background and a reference field and works on grids of one shape
Works(m, s) == m = "m4" => GridOf(s) # "g2"

Memoized == {"pv", "u", "streamfunction", "falwa", "pv_zonalized"}

(* What the operations should return *)
PureField(s, f) == <<s, f>>
PureGradient(t, g) == <<t, ClassOf(g)>>
PureStep(m, c, s, n) == <<m, c, s, n, {PureGradient(t, GridOf(s)) : t \in TermsOf(m, c)}>>

(* Cache access *)
\* the entry found for a term on a grid: equal grids share entries
Hit(c, t, g) == {i \in DOMAIN c : c[i].term = t /\ ClassOf(c[i].grid) = ClassOf(g)}
Lookup(c, t, g) ==
    IF Hit(c, t, g) # {}
    THEN LET i == CHOOSE i \in Hit(c, t, g) : TRUE
         IN [val |-> c[i].val, cache |-> <<c[i]>> \o SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))]
    ELSE LET e == [term |-> t, grid |-> g, val |-> PureGradient(t, g)]
         IN [val |-> e.val, cache |-> SubSeq(<<e>> \o c, 1, IF Len(c) < CacheSize THEN Len(c) + 1 ELSE CacheSize)]

RECURSIVE Gradients(_, _, _)
Gradients(c, ts, g) ==
    IF ts = {} THEN [vals |-> {}, cache |-> c]
    ELSE LET t == CHOOSE t \in ts : TRUE
             l == Lookup(c, t, g)
             r == Gradients(l.cache, ts \ {t}, g)
         IN [vals |-> {l.val} \cup r.vals, cache |-> r.cache]

Record(op, m, s, s2, f, n, val) ==
    hist' = Append(hist, [op |-> op, m |-> m, s |-> s, s2 |-> s2, f |-> f, n |-> n, val |-> val])

Init == memo = [s \in States |-> [f \in {} |-> <<>>]] /\ cache = <<>> /\ conf = [m \in Models |-> ""] /\ hist = <<>>

Access(s, f) ==
    LET val == IF f \in DOMAIN memo[s] THEN memo[s][f] ELSE PureField(s, f)
    IN /\ memo' = IF f \in Memoized THEN [memo EXCEPT ![s] = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN val ELSE @[x]]] ELSE memo
       /\ Record("access", "", s, "", f, 0, <<val>>)
       /\ UNCHANGED <<cache, conf>>

Evaluate(t, s) ==
    LET l == Lookup(cache, t, GridOf(s))
    IN cache' = l.cache /\ Record("evaluate", t, s, "", "", 0, <<l.val>>) /\ UNCHANGED <<memo, conf>>

Run(m, s, n) ==
    LET r == Gradients(cache, TermsOf(m, conf[m]), GridOf(s))
    IN cache' = r.cache /\ Record("run", m, s, "", conf[m], n, <<<<m, conf[m], s, n, r.vals>>>>) /\ UNCHANGED <<memo, conf>>

\* a pair of states on the same grid: one after the other
RunList(m, s, s2, n) ==
    LET r == Gradients(cache, TermsOf(m, conf[m]), GridOf(s))
        q == Gradients(r.cache, TermsOf(m, conf[m]), GridOf(s2))
    IN /\ cache' = q.cache
       /\ Record("runlist", m, s, s2, conf[m], n, <<<<m, conf[m], s, n, r.vals>>, <<m, conf[m], s2, n, q.vals>>>>)
       /\ UNCHANGED <<memo, conf>>

\* single steps: Euler from s, leapfrog from there, leapfrog from s over s2.
\* The forcing is evaluated for s twice (Euler, first leapfrog), and for s2
Step(m, s, s2) ==
    LET r == Gradients(cache, TermsOf(m, conf[m]), GridOf(s))
        q == Gradients(r.cache, TermsOf(m, conf[m]), GridOf(s2))
    IN /\ cache' = q.cache
       /\ Record("step", m, s, s2, conf[m], 1, <<<<m, conf[m], s, 1, r.vals>>, <<m, conf[m], s, s2, q.vals>>>>)
       /\ UNCHANGED <<memo, conf>>

\* the settings of a model are public attributes
Configure(m) ==
    /\ conf' = [conf EXCEPT ![m] = IF @ = "" THEN "alt" ELSE ""]
    /\ Record("configure", m, "", "", conf'[m], 0, <<>>)
    /\ UNCHANGED <<memo, cache>>

\* things that only read
Read(k, s) == Record(k, "", s, "", "", 0, <<<<s, k>>>>) /\ UNCHANGED <<memo, cache, conf>>

Runs == Cardinality({i \in DOMAIN hist : hist[i].op \in {"run", "runlist", "step"}})
Next ==
    /\ Len(hist) < Depth
    /\ \/ \E s \in States, f \in Fields : Access(s, f)
       \/ \E s \in States, t \in AllTerms : Evaluate(t, s)
       \/ Runs < MaxRuns /\ \E s \in States, m \in Models, n \in Steps : Works(m, s) /\ Run(m, s, n)
       \/ Runs < MaxRuns /\ \E s, s2 \in States, m \in Models : GridOf(s) = GridOf(s2) /\ Works(m, s) /\ RunList(m, s, s2, 1)
       \/ Runs < MaxRuns /\ \E s, s2 \in States, m \in Models :
              GridOf(s) = GridOf(s2) /\ TimeOf(s) < TimeOf(s2) /\ Works(m, s) /\ Step(m, s, s2)
       \/ Runs > 0 /\ Runs < MaxRuns /\ \E m \in Models : Configure(m)
       \/ \E s \in States, k \in {"dataset", "region", "add"} : Read(k, s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Results depend on the inputs of the operation only                      *)
Expected(h) ==
    CASE h.op = "access" -> <<PureField(h.s, h.f)>>
      [] h.op = "evaluate" -> <<PureGradient(h.m, GridOf(h.s))>>
      [] h.op = "run" -> <<PureStep(h.m, h.f, h.s, h.n)>>
      [] h.op = "runlist" -> <<PureStep(h.m, h.f, h.s, h.n), PureStep(h.m, h.f, h.s2, h.n)>>
      [] h.op = "step" -> <<PureStep(h.m, h.f, h.s, 1), <<h.m, h.f, h.s, h.s2, {PureGradient(t, GridOf(h.s2)) : t \in TermsOf(h.m, h.f)}>>>>
      [] h.op = "configure" -> <<>>
      [] OTHER -> <<<<h.s, h.op>>>>
Isolation == \A i \in DOMAIN hist : hist[i].val = Expected(hist[i])
\* settings are those of the last configuration
LastConf(m, i) == LET c == {j \in 1..i : hist[j].op = "configure" /\ hist[j].m = m}
                  IN IF c = {} THEN "" ELSE hist[CHOOSE j \in c : \A k \in c : k <= j].f
Settings == /\ \A i \in DOMAIN hist : hist[i].op \in {"run", "runlist", "step"} => hist[i].f = LastConf(hist[i].m, i)
            /\ \A m \in Models : conf[m] = LastConf(m, Len(hist))
CacheSound == /\ Len(cache) <= CacheSize
              /\ \A i \in DOMAIN cache : cache[i].val = PureGradient(cache[i].term, cache[i].grid)
              /\ \A i, j \in DOMAIN cache : i # j => ~(cache[i].term = cache[j].term /\ ClassOf(cache[i].grid) = ClassOf(cache[j].grid))
MemoSound == \A s \in States : \A f \in DOMAIN memo[s] : memo[s][f] = PureField(s, f)

Ops == [i \in DOMAIN hist |-> [op |-> hist[i].op, m |-> hist[i].m, s |-> hist[i].s, s2 |-> hist[i].s2, f |-> hist[i].f, n |-> hist[i].n]]
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([hist |-> Ops]))
=============================================================================
