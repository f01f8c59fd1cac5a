----------------------------- MODULE ImportDims -----------------------------
(***************************************************************************)
(* Flattening of the dimensions before latitude and longitude. A dimension *)
(* has a size and coordinate values that are absent, unique, or repeated.  *)
(* The time is a coordinate that depends on a set of dimensions; it can be *)
(* the coordinate of a dimension of its own name ("own"), a coordinate     *)
(* along other dimensions ("along"), no coordinate, or a data variable.    *)
(* A cell is the index in every dimension; the time of a cell is given by  *)
(* its indices in the dimensions on which time depends.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Coords, MaxDims
VARIABLES dims, time, cells, phase
vars == <<dims, time, cells, phase>>

NoTime == [how |-> "absent", on |-> {}, known |-> TRUE]
Init == dims = <<>> /\ time = NoTime /\ cells = <<>> /\ phase = "build"
AddDim(s, c) == /\ phase = "build" /\ Len(dims) < MaxDims /\ dims' = Append(dims, [size |-> s, coord |-> c]) /\ UNCHANGED <<time, cells, phase>>
\* known: the variable is called "time" or the user gives its name
SetTime(how, on, known) ==
    /\ phase = "build" /\ time = NoTime
    /\ on \subseteq DOMAIN dims
    /\ (how \in {"own", "bare"} => Cardinality(on) = 1)
    /\ time' = [how |-> how, on |-> on, known |-> known] /\ phase' = "timed" /\ UNCHANGED <<dims, cells>>
\* "own" and "bare": the dimension has the name of the time, with and without coordinate
Extracted == time.known /\ time.how \in {"own", "along"}
CellTime(c) == IF Extracted THEN [t |-> "at", idx |-> [i \in DOMAIN dims |-> IF i \in time.on THEN c[i] ELSE 1]]
               ELSE [t |-> "fill", idx |-> <<>>]
\* Cells are visited as by an odometer, the last dimension fastest
First == [i \in DOMAIN dims |-> 1]
HasNext(c) == \E i \in DOMAIN dims : c[i] < dims[i].size
Succ(c) == LET k == CHOOSE k \in DOMAIN dims : c[k] < dims[k].size /\ \A j \in (k + 1)..Len(dims) : c[j] = dims[j].size
           IN [i \in DOMAIN dims |-> IF i < k THEN c[i] ELSE IF i = k THEN c[i] + 1 ELSE 1]
Start == /\ phase \in {"build", "timed"} /\ phase' = "flatten" /\ cells' = << [cell |-> First, time |-> CellTime(First)] >> /\ UNCHANGED <<dims, time>>
Step == /\ phase = "flatten" /\ HasNext(cells[Len(cells)].cell)
        /\ LET c == Succ(cells[Len(cells)].cell) IN cells' = Append(cells, [cell |-> c, time |-> CellTime(c)])
        /\ UNCHANGED <<dims, time, phase>>
Finish == phase = "flatten" /\ ~HasNext(cells[Len(cells)].cell) /\ phase' = "done" /\ UNCHANGED <<dims, time, cells>>
Next == \/ \E s \in Sizes, c \in Coords : AddDim(s, c)
        \/ \E how \in {"own", "bare", "along", "variable"}, on \in SUBSET (DOMAIN dims), known \in BOOLEAN : SetTime(how, on, known)
        \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Product(_)
Product(k) == IF k = 0 THEN 1 ELSE dims[k].size * Product(k - 1)
Done == phase = "done"
\* Position of a cell in the flattened sequence (row major)
RECURSIVE Position(_, _)
Position(c, k) == IF k = 0 THEN 0 ELSE Position(c, k - 1) * dims[k].size + c[k] - 1
All == Done => /\ Len(cells) = Product(Len(dims))
               /\ \A i \in DOMAIN cells : Position(cells[i].cell, Len(dims)) = i - 1
Times == Done => \A i, j \in DOMAIN cells : (\A d \in time.on : cells[i].cell[d] = cells[j].cell[d]) => cells[i].time = cells[j].time
Emit == Done => PrintT("@@" \o ToJson([dims |-> dims, time |-> [how |-> time.how, on |-> time.on, known |-> time.known], cells |-> cells]))
=============================================================================
