---------------------------- MODULE Independence -----------------------------
(***************************************************************************)
(* Objects that do not influence each other. Grids with equal, similar and *)
(* different parameters, regions and states on them, and forcing terms are *)
(* made, used, changed and deleted; results are overwritten by the caller. *)
(*                                                                         *)
(*   objs   [kind, p, of, time, live]: parameter set p, number of the grid *)
(*          it lives on (0: none)                                          *)
(*   prog   the actions so far; a call carries the symbol of its value     *)
(*   fresh  whether the result of the last action belongs to the caller    *)
(*                                                                         *)
(* The symbol of a call consists of the method and of the parameters of    *)
(* its own objects only: equal symbols, equal results.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Grids, Regions, Flows, Terms, Times,   \* parameter sets
          GridCalls, RegionCalls, StateCalls, TermCalls,  \* sequences of names
          Foci,    \* numbers of selections of parameters and methods; 0: all
          MaxObjs, Depth


VARIABLES objs, prog, fresh, done,
          focus,    \* the selection used
          turn      \* random behaviours only, see there
vars == <<objs, prog, fresh, done>>
allvars == <<vars, focus, turn>>

GridSeq == <<"attributes", "repr", "eq", "area", "circumference", "coriolis", "to_spectral", "to_grid", "wind", "vorticity", "divergence", "gradient",
                 "derivative 2", "derivative 4", "laplace", "poisson", "helmholtz", "diffusion 1", "diffusion 2", "diffusion dt", "diffusion coeff",
                 "mean", "mean zonal", "mean meridional", "quad", "quad zero", "quad meridional sum", "zonalize", "zonalize levels", "zonalize boxcount",
                 "equivalent latitude", "interpolate", "window hann 40", "window hann 60", "window boxcar 40", "window boxcar 60", "filter meridional", "filter zonal",
                 "filter width", "wavenumber fourier", "wavenumber range", "wavenumber wavelet", "filter by wavenumber",
                 "envelope", "envelope range", "stationary", "stationary real", "waveguides", "falwa", "falwa levels", "fawa",
                 "motionless", "solid", "solid amplitude", "jet", "jet center", "held", "held C", "symmetric", "symmetric pv", "region", "states", "laplace spectral", "poisson spectral", "meridional boxcount">>
RegionSeq == <<"coordinates", "mono", "mask", "area", "extract", "extract lat", "mean", "mean axis", "repr", "shape">>
StateSeq == <<"pv", "wind", "streamfunction", "spectral", "vorticity", "vorticity spectral", "flux", "enstrophy", "energy", "eddy", "falwa", "fawa", "zonalized", "filtered",
                  "envelope", "stationary", "waveguides", "repr", "time", "euler", "euler order", "euler coeff", "leapfrog", "run", "run dt", "add wind", "add vorticity",
                  "list", "dataset", "dataset region", "hovmoeller", "pickle", "list run", "background", "other background", "avo">>
TermSeq == <<"value", "repr", "euler", "sum", "product", "orography">>

AllGrids == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>
AllRegions == <<1, 2, 3, 4, 5, 6, 7>>
AllFlows == <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
AllTerms == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>
AllFoci == 1..300
One == <<1>>
Two == <<1, 2>>
Call1 == <<"x">>
\* A selection of n of the entries of a sequence: few methods and parameters,
\* such that calls meet each other
Pick(s, n) == IF focus = 0 THEN {s[k] : k \in DOMAIN s}
              ELSE {s[((focus * 7 + k * (1 + (focus % 11))) % Len(s)) + 1] : k \in 0..(n - 1)}


Live(k) == {i \in DOMAIN objs : objs[i].kind = k /\ objs[i].live}
NoSym == [m |-> "", g |-> 0, p |-> 0, q |-> 0, t |-> 0]
\* (t: term, then i is the state)
Sym(i, m) == [m |-> m, g |-> IF objs[i].kind = "grid" THEN objs[i].p ELSE objs[objs[i].of].p, p |-> objs[i].p, q |-> 0, t |-> objs[i].time]
SymT(j, i, m) == [Sym(i, m) EXCEPT !.q = objs[j].p]

Act(a, i, j, kind, p, sym) == [a |-> a, i |-> i, j |-> j, kind |-> kind, p |-> p, sym |-> sym]
Did(x) == prog' = Append(prog, x)

Init == objs = <<>> /\ prog = <<>> /\ fresh = FALSE /\ done = FALSE

Add(kind, p, of) == /\ Cardinality({i \in DOMAIN objs : objs[i].live}) < MaxObjs
                    /\ objs' = Append(objs, [kind |-> kind, p |-> p, of |-> of, time |-> 0, live |-> TRUE])
                    /\ Did(Act("make", Len(objs) + 1, of, kind, p, NoSym)) /\ fresh' = FALSE
Make == \/ \E p \in Pick(Grids, 4) : Add("grid", p, 0)
        \/ \E p \in Pick(Regions, 3), g \in Live("grid") : Add("region", p, g)
        \/ \E p \in Pick(Flows, 3), g \in Live("grid") : Add("state", p, g)
        \/ \E p \in Pick(Terms, 3) : Add("term", p, 0)
Call(i, j, sym) == Did(Act("call", i, j, objs[i].kind, 0, sym)) /\ fresh' = TRUE /\ UNCHANGED objs
Calls == \/ \E i \in Live("grid"), m \in Pick(GridCalls, 5) : Call(i, 0, Sym(i, m))
         \/ \E i \in Live("region"), m \in Pick(RegionCalls, 3) : Call(i, 0, Sym(i, m))
         \/ \E i \in Live("state"), m \in Pick(StateCalls, 4) : Call(i, 0, Sym(i, m))
         \/ \E j \in Live("term"), i \in Live("state"), m \in Pick(TermCalls, 3) : Call(i, j, SymT(j, i, m))
\* the caller overwrites the result of the call before
Overwrite == fresh /\ fresh' = FALSE /\ Did(Act("overwrite", 0, 0, "", 0, NoSym)) /\ UNCHANGED objs
SetTime == \E i \in Live("state"), t \in Times :
             /\ t # objs[i].time
             /\ objs' = [objs EXCEPT ![i].time = t]
             /\ Did(Act("time", i, 0, "", t, NoSym))
             /\ fresh' = FALSE
\* deleted objects: what lives on them goes first
Delete == \E i \in DOMAIN objs :
             /\ objs[i].live
             /\ \A k \in DOMAIN objs : ~(objs[k].live /\ objs[k].of = i)
             /\ objs' = [objs EXCEPT ![i].live = FALSE]
             /\ Did(Act("delete", i, 0, "", 0, NoSym))
             /\ fresh' = FALSE
Free(i) == objs[i].live /\ \A k \in DOMAIN objs : ~(objs[k].live /\ objs[k].of = i)
\* One object goes, another one of the same kind comes
Replace == \E i \in DOMAIN objs :
             /\ objs[i].live
             /\ \A k \in DOMAIN objs : ~(objs[k].live /\ objs[k].of = i)
             /\ \E p \in CASE objs[i].kind = "grid" -> Pick(Grids, 4) [] objs[i].kind = "region" -> Pick(Regions, 3)
                          [] objs[i].kind = "state" -> Pick(Flows, 3) [] OTHER -> Pick(Terms, 3) :
                  /\ p # objs[i].p
                  /\ objs' = Append([objs EXCEPT ![i].live = FALSE], [kind |-> objs[i].kind, p |-> p, of |-> objs[i].of, time |-> 0, live |-> TRUE])
                  /\ Did(Act("replace", i, objs[i].of, objs[i].kind, p, NoSym))
             /\ fresh' = FALSE

More == Len(prog) < Depth /\ ~done /\ UNCHANGED done
Finish == Len(prog) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<objs, prog, fresh>>
Next == \/ /\ More
           /\ Make \/ Calls \/ Overwrite \/ SetTime \/ Delete \/ Replace
        \/ Finish
SpecInit == Init /\ turn = 0 /\ focus = 0
Spec == SpecInit /\ [][Next /\ UNCHANGED <<focus, turn>>]_allvars

\* Random behaviours: the kinds of actions take turns (from a random start),
\* such that calls do not displace everything else, and calls are repeated
\* (on the same objects, or on others with the same parameters)
Turns == <<"make", "make", "call", "overwrite", "again", "make", "call", "replace", "newest", "call", "overwrite", "again", "call", "overwrite", "time", "again",
           "make", "call", "replace", "newest", "replace", "newest", "delete", "make", "call", "overwrite", "call", "again", "delete", "make", "again", "call">>
\* the last method again on the newest object
Newest == \E k \in DOMAIN prog :
            /\ prog[k].a = "call" /\ \A n \in (k + 1)..Len(prog) : prog[n].a # "call"
            /\ LET i == Len(objs)  j == prog[k].j  m == prog[k].sym.m
               IN /\ objs[i].live /\ objs[i].kind = prog[k].kind
                  /\ IF j = 0 THEN Call(i, 0, Sym(i, m)) ELSE objs[j].live /\ Call(i, j, SymT(j, i, m))
CanNewest == \E k \in DOMAIN prog :
            /\ prog[k].a = "call" /\ \A n \in (k + 1)..Len(prog) : prog[n].a # "call"
            /\ objs[Len(objs)].live /\ objs[Len(objs)].kind = prog[k].kind /\ (prog[k].j # 0 => objs[prog[k].j].live)
\* what was called last is replaced, if possible
ReplaceLast == /\ Replace
               /\ \A k \in DOMAIN prog : (prog[k].a = "call" /\ \A n \in (k + 1)..Len(prog) : prog[n].a # "call")
                                          => (prog'[Len(prog')].i = prog[k].i \/ ~Free(prog[k].i))
Again == \E k \in DOMAIN prog :
           /\ prog[k].a = "call" /\ prog[k].sym.m # ""
           /\ LET i == prog[k].i  j == prog[k].j  m == prog[k].sym.m
              IN /\ objs[i].live
                 /\ \/ j = 0 /\ \E n \in Live(objs[i].kind) : Call(n, 0, Sym(n, m))
                    \/ j # 0 /\ objs[j].live /\ \E n \in Live("state") : Call(n, j, SymT(j, n, m))
CanAgain == \E k \in DOMAIN prog : prog[k].a = "call" /\ objs[prog[k].i].live /\ (prog[k].j # 0 => objs[prog[k].j].live)
LiveObjs == {i \in DOMAIN objs : objs[i].live}
Can(k) == CASE k = "make" -> Cardinality(LiveObjs) < MaxObjs
            [] k = "call" -> \E i \in LiveObjs : objs[i].kind # "term"
            [] k = "overwrite" -> fresh
            [] k = "again" -> CanAgain
            [] k = "time" -> Live("state") # {}
            [] k = "newest" -> CanNewest
            [] k = "replace" -> \E i \in DOMAIN objs : Free(i)
            [] k = "delete" -> Cardinality(LiveObjs) > 2
SimInit == Init /\ turn \in DOMAIN Turns /\ focus \in Foci
SimNext == \/ /\ More /\ turn # 0 /\ turn' = (turn % Len(Turns)) + 1
              /\ \/ ~Can(Turns[turn]) /\ UNCHANGED <<objs, prog, fresh>>
                 \/ Turns[turn] = "make" /\ Make
                 \/ Turns[turn] = "call" /\ Calls
                 \/ Turns[turn] = "again" /\ Again
                 \/ Turns[turn] = "newest" /\ Newest
                 \/ Turns[turn] = "replace" /\ ReplaceLast
                 \/ Turns[turn] = "overwrite" /\ Overwrite
                 \/ Turns[turn] = "time" /\ SetTime
                 \/ Turns[turn] = "delete" /\ Can("delete") /\ Delete
           \/ Finish /\ UNCHANGED turn
SimSpec == SimInit /\ [][SimNext /\ UNCHANGED focus]_allvars
-----------------------------------------------------------------------------
(* Properties *)
Rooted == \A i \in DOMAIN objs : objs[i].of # 0 => objs[objs[i].of].kind = "grid" /\ (objs[i].live => objs[objs[i].of].live)
\* An action changes at most the object it names, and the symbols of calls of
\* all other objects remain the same
Frame == [][\A i \in DOMAIN objs : objs'[i] # objs[i] => prog' # prog /\ prog'[Len(prog')].i = i]_vars
SymbolsStay == [][\A i \in DOMAIN objs : (objs[i].kind \in {"grid", "region", "state"} /\ (prog' = prog \/ prog'[Len(prog')].i # i))
                    => Sym(i, "x")' = Sym(i, "x")]_vars
\* Only results of calls are overwritten, each at most once
Owned == \A k \in DOMAIN prog : prog[k].a = "overwrite" => k > 1 /\ prog[k-1].a = "call"
\* Calls name the parameters their objects were made with
Faithful == \A k \in DOMAIN prog : prog[k].a = "call" =>
              /\ prog[k].sym.p = objs[prog[k].i].p
              /\ prog[k].sym.g = (IF objs[prog[k].i].kind = "grid" THEN objs[prog[k].i].p ELSE objs[objs[prog[k].i].of].p)
              /\ prog[k].j # 0 => prog[k].sym.q = objs[prog[k].j].p
Bounded == Len(prog) <= Depth
Emit == done => PrintT("@@" \o ToJson([prog |-> prog]))
=============================================================================
