---------------------------- MODULE ImportSelect ----------------------------
(***************************************************************************)
(* Which variables states are made from. For every reference name, has[r]  *)
(* are the documented names (by position in the documented order) that     *)
(* occur in the dataset; user[r] is the name given by the user: none, one  *)
(* of the documented names, a custom one (0), or one that does not occur.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NumU, NumV, NumVo, NumAvo, MaxUser
Refs == {"u", "v", "vo", "avo"}
Num(r) == CASE r = "u" -> NumU [] r = "v" -> NumV [] r = "vo" -> NumVo [] r = "avo" -> NumAvo
None == 99
Custom == 0
Missing == 98
VARIABLES has, user, phase, from
vars == <<has, user, phase, from>>

Refused == << [ref |-> "refused", name |-> 0] >>
Init == has = [r \in Refs |-> {}] /\ user = [r \in Refs |-> None] /\ phase = "build" /\ from = <<>>
Users == Cardinality({r \in Refs : user[r] # None})
AddVar(r, i) == /\ phase = "build" /\ i \notin has[r] /\ has' = [has EXCEPT ![r] = @ \cup {i}] /\ UNCHANGED <<user, phase, from>>
Name(r, x) == /\ phase = "build" /\ user[r] = None /\ Users < MaxUser
              /\ (x \in 1..Num(r) => x \in has[r])
              /\ user' = [user EXCEPT ![r] = x] /\ UNCHANGED <<has, phase, from>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Chosen(r) == IF user[r] # None THEN user[r] ELSE IF has[r] = {} THEN None ELSE Min(has[r])
Make(rs) == IF \E i \in DOMAIN rs : Chosen(rs[i]) = Missing THEN Refused
            ELSE [i \in DOMAIN rs |-> [ref |-> rs[i], name |-> Chosen(rs[i])]]
Import ==
    /\ phase = "build" /\ phase' = "done"
    /\ from' = IF Chosen("u") # None /\ Chosen("v") # None THEN Make(<<"u", "v">>)
               ELSE IF Chosen("vo") # None THEN Make(<<"vo">>)
               ELSE IF Chosen("avo") # None THEN Make(<<"avo">>) ELSE Refused
    /\ UNCHANGED <<has, user>>
Next == (\E r \in Refs : \E i \in 1..Num(r) : AddVar(r, i)) \/ (\E r \in Refs : \E x \in (1..Num(r)) \cup {Custom, Missing} : Name(r, x)) \/ Import
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Made == from # Refused
\* Half a wind is no wind
Complete == (Done /\ Made) => \/ {from[i].ref : i \in DOMAIN from} = {"u", "v"}
                              \/ Len(from) = 1 /\ from[1].ref \in {"vo", "avo"}
Priority == (Done /\ Made /\ from[1].ref = "avo") => Chosen("vo") = None /\ (Chosen("u") = None \/ Chosen("v") = None)
First == (Done /\ Made) => \A i \in DOMAIN from : LET r == from[i].ref IN
            user[r] = None => from[i].name \in has[r] /\ \A j \in has[r] : from[i].name <= j
UserWins == (Done /\ Made) => \A i \in DOMAIN from : user[from[i].ref] # None => from[i].name = user[from[i].ref]
\* Other variables cannot make an import of a complete set fail
Possible == (Done /\ ~Made) => \/ \E r \in Refs : user[r] = Missing
                               \/ (has["vo"] = {} /\ has["avo"] = {} /\ (has["u"] = {} \/ has["v"] = {}))
Pairs(f(_)) == [u |-> f("u"), v |-> f("v"), vo |-> f("vo"), avo |-> f("avo")]
Emit == Done => PrintT("@@" \o ToJson([has |-> Pairs(LAMBDA r : has[r]), user |-> Pairs(LAMBDA r : user[r]), from |-> from]))
=============================================================================
