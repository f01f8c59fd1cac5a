------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Export of a collection of states to a dataset. States are identified by *)
(* their position in a pool; the dataset is described by the dimensions of *)
(* its variables and by which getter fills them, state by state.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool, MaxStates, Forms, Getters, Names
\* Pool: set of records [id, grid, time, label] (label "none": no attribute)
VARIABLES states, form, spec, concat, ds, phase
vars == <<states, form, spec, concat, ds, phase>>

\* getter -> dimensions of one state's field, or why it is refused
Shape(g) == CASE g \in {"u", "v", "pv", "avo", "vo", "energy", "double"} -> <<"latitude", "longitude">>
              [] g \in {"fawa", "zonal mean"} -> <<"latitude">>
              [] g = "meridional mean" -> <<"longitude">>
              [] g \in {"number", "amount"} -> <<>>
              [] OTHER -> <<"refused">>
\* which attributes have to be spelled as such, and which are callables
IsName(g) == g \in {"u", "v", "pv", "avo", "vo", "energy", "fawa", "amount"}
Empty == [refused |-> FALSE, vars |-> {}, coords |-> {}, index |-> <<>>, times |-> <<>>]
Refused == [Empty EXCEPT !.refused = TRUE]

Init == states = <<>> /\ form = "none" /\ spec = <<>> /\ concat = "none" /\ ds = Empty /\ phase = "collect"
Add(s) == /\ phase = "collect" /\ Len(states) < MaxStates /\ states' = Append(states, s)
          /\ UNCHANGED <<form, spec, concat, ds, phase>>
\* spec: sequence of <<name in the dataset, getter>> with different names
Entry(nm, g) == /\ \A i \in DOMAIN spec : spec[i].name # nm
                /\ spec' = Append(spec, [name |-> nm, getter |-> g])
Specify(f) ==
    /\ phase \in {"collect", "specify"} /\ form \in {"none", f}
    /\ Len(spec) < (IF f \in {"name", "default"} THEN (IF f = "default" THEN 0 ELSE 1) ELSE 2)
    /\ IF f = "mapping" THEN \E nm \in Names, g \in Getters : Entry(nm, g)
       ELSE \E g \in Getters : IsName(g) /\ Entry(g, g)
    /\ form' = f /\ phase' = "specify" /\ UNCHANGED <<states, concat, ds>>
Default == /\ phase = "collect" /\ form' = "default" /\ spec' = << [name |-> "u", getter |-> "u"], [name |-> "v", getter |-> "v"] >>
           /\ phase' = "specify" /\ UNCHANGED <<states, concat, ds>>

OneGrid == \A i, j \in DOMAIN states : states[i].grid = states[j].grid
\* Values along the concatenation dimension
Index(c) == IF c = "time" THEN [i \in DOMAIN states |-> [t |-> "time", v |-> states[i].time]]
            ELSE IF c = "label" /\ \A i \in DOMAIN states : states[i].label # "none" THEN [i \in DOMAIN states |-> [t |-> "label", v |-> states[i].label]]
            ELSE [i \in DOMAIN states |-> [t |-> "running", v |-> i - 1]]
Result(c) ==
    IF states = <<>> THEN Empty
    ELSE IF ~OneGrid \/ \E i \in DOMAIN spec : Shape(spec[i].getter) = <<"refused">> THEN Refused
    ELSE [refused |-> FALSE,
          vars |-> {[name |-> spec[i].name, dims |-> <<c>> \o Shape(spec[i].getter), getter |-> spec[i].getter] : i \in DOMAIN spec},
          coords |-> {"latitude", "longitude", "time", c},
          index |-> Index(c), times |-> [i \in DOMAIN states |-> states[i].time]]
Export(c) == /\ phase = "specify" /\ concat' = c /\ ds' = Result(c) /\ phase' = "done" /\ UNCHANGED <<states, form, spec>>
Next == \/ \E s \in Pool : Add(s)
        \/ \E f \in Forms : Specify(f)
        \/ ("default" \in Forms /\ Default)
        \/ \E c \in {"time", "label", "member", "index"} : Export(c)
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Exact == (Done /\ states # <<>> /\ ~ds.refused) => {x.name : x \in ds.vars} = {spec[i].name : i \in DOMAIN spec} /\ Cardinality(ds.vars) = Len(spec)
Along == (Done /\ ~ds.refused) => \A x \in ds.vars : x.dims[1] = concat /\ Len(ds.index) = Len(states)
Nothing == (Done /\ states = <<>>) => ds = Empty
InOrder == (Done /\ ~ds.refused) => ds.times = [i \in DOMAIN ds.times |-> states[i].time] /\ (concat = "time" => Len(ds.index) = Len(ds.times))
Untouched == [][phase = "specify" => states' = states]_vars
Emit == Done => PrintT("@@" \o ToJson([states |-> [i \in DOMAIN states |-> states[i].id], form |-> form, spec |-> spec, concat |-> concat, ds |-> ds]))

PoolSmall == {[id |-> 1, grid |-> 1, time |-> 3, label |-> "a"], [id |-> 2, grid |-> 1, time |-> 5, label |-> "b"],
              [id |-> 3, grid |-> 1, time |-> 3, label |-> "none"], [id |-> 4, grid |-> 2, time |-> 4, label |-> "a"]}
=============================================================================
