---------------------------- MODULE StateFields -----------------------------
(***************************************************************************)
(* Lazily derived, memoized fields of State objects. The value of a field  *)
(* is abstract: Val(f, c), determined by the PV content c of the state.    *)
(*                                                                         *)
(*   content  PV content and constructor of every state                    *)
(*   memo     per state: the memoized values, a function from the names    *)
(*            that were computed to values                                 *)
(*   hist     accesses so far with the value returned                      *)
(*                                                                         *)
(* An access evaluates the definition of the field from the fields it      *)
(* needs (Needs), memoizing what the implementation memoizes (Memoized).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Contents, Ctors, NStates, Depth

VARIABLES content, memo, hist
vars == <<content, memo, hist>>

Fields == {"pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral",
           "vorticity", "vo", "vorticity_spectral", "enstrophy", "eddy_enstrophy", "energy",
           "pv_zonalized", "falwa", "fawa", "falwa_filtered", "v_envelope_hilbert",
           "stationary_wavenumber", "waveguides"}
Memoized == {"pv", "u", "v", "streamfunction", "pv_zonalized", "falwa"}
Needs(f) ==
    CASE f = "pv_spectral" -> {}                        \* given by the constructor
      [] f = "pv" -> {"pv_spectral"}
      [] f \in {"avo", "vorticity", "enstrophy", "eddy_enstrophy", "pv_zonalized", "falwa"} -> {"pv"}
      [] f = "vo" -> {"vorticity"}
      [] f = "vorticity_spectral" -> {"pv_spectral"}
      [] f \in {"u", "v", "streamfunction"} -> {"vorticity_spectral"}
      [] f = "pv_flux_spectral" -> {"pv", "u", "v"}
      [] f = "energy" -> {"u", "v"}
      [] f = "fawa" -> {"falwa"}
      [] f = "falwa_filtered" -> {"falwa", "v"}
      [] f = "v_envelope_hilbert" -> {"v"}
      [] f = "stationary_wavenumber" -> {"u", "pv"}
      [] f = "waveguides" -> {"stationary_wavenumber"}
\* u and v are results of the same inversion
Together(f) == IF f \in {"u", "v"} THEN {"u", "v"} ELSE {f}

\* Fields memoized after an access to f on top of those in set d
RECURSIVE After(_, _)
After(f, d) ==
    IF f \in d THEN d
    ELSE LET ns == Needs(f)
             RECURSIVE All(_, _)
             All(s, acc) == IF s = {} THEN acc
                            ELSE LET g == CHOOSE g \in s : TRUE IN All(s \ {g}, After(g, acc))
         IN All(ns, d) \cup (Together(f) \cap Memoized)

Val(f, c) == <<f, c>>
\* Value of f computed from the memo m of a state with content c: a memoized
\* value is returned as it is
Value(f, c, m) == IF f \in DOMAIN m THEN m[f] ELSE Val(f, c)

Init == /\ content \in [1..NStates -> Contents \X Ctors]
        /\ memo = [s \in 1..NStates |-> <<>>]
        /\ hist = <<>>

Access(s, f) ==
    LET c == content[s][1]
        d == After(f, DOMAIN memo[s])
    IN /\ memo' = [memo EXCEPT ![s] = [g \in d |-> Value(g, c, memo[s])]]
       /\ hist' = Append(hist, [s |-> s, f |-> f, v |-> Value(f, c, memo[s])])
       /\ UNCHANGED content

Next == Len(hist) < Depth /\ \E s \in 1..NStates, f \in Fields : Access(s, f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties                                                              *)
\* every access returns the value determined by the content of its state
OrderIndependent == \A k \in DOMAIN hist : hist[k].v = Val(hist[k].f, content[hist[k].s][1])
MemoSound == \A s \in DOMAIN memo : /\ DOMAIN memo[s] \subseteq Memoized
                                   /\ \A f \in DOMAIN memo[s] : memo[s][f] = Val(f, content[s][1])
\* accesses to one state do not touch the others; memoized values stay
Isolated == [][\E s \in 1..NStates : \A t \in 1..NStates \ {s} : memo'[t] = memo[t]]_vars
Stable == [][\A s \in 1..NStates : \A f \in DOMAIN memo[s] : f \in DOMAIN memo'[s] /\ memo'[s][f] = memo[s][f]]_vars

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(
    [content |-> [s \in 1..NStates |-> content[s][1]], ctor |-> [s \in 1..NStates |-> content[s][2]], hist |-> hist]))
=============================================================================
