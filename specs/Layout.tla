------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How the numbers of a field lie in memory does not matter. A field is    *)
(* stored in a buffer in one of several layouts (offset and strides) and   *)
(* number formats; between and around its cells the buffer holds other     *)
(* data. Operations read the field through the view, their results depend  *)
(* on the values only, and they never write. The user may fill an array    *)
(* anew (in place) at any time, which must not be seen in earlier results, *)
(* but in later ones.                                                      *)
(*                                                                         *)
(*   mem    buffer of each array: function from cells                      *)
(*   arr    description of each array: field, layout, format               *)
(*   hist   actions so far: new array, array filled anew, operation        *)
(*   done   end of the history                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Formats, Layouts, Fields, Ops, NArrays, Depth, Sampling

VARIABLES mem, arr, hist, done
vars == <<mem, arr, hist, done>>

R == 2
C == 3
Rows == 0..R-1
Cols == 0..C-1
Names == DOMAIN arr

(* Number formats: the range of values that are represented exactly        *)
Range(f) ==
    CASE f = "u1" -> <<0, 255>>
      [] f = "i1" -> <<-128, 127>>
      [] f = "u2" -> <<0, 65535>>
      [] f \in {"i2", "i2be"} -> <<-32768, 32767>>
      [] f \in {"i4", "i8", "f4", "f4be"} -> <<-16777216, 16777216>>
      [] f \in {"f8", "f8be"} -> <<-1000000000, 1000000000>>
Unsigned(f) == f \in {"u1", "u2"}
\* values of fields: small, or reaching the limits of the format
Large(f) == IF Range(f)[2] > 32767 THEN 32767 ELSE Range(f)[2]
Pattern(k, r, c) ==
    CASE k \in {"small", "limit"} -> (3 * r + 2 * c * c + r * c) % 7
      [] k = "symmetric" -> 2 * r + 1
\* in units of a seventh of the range; symmetric fields do not vary with longitude
Value(k, f, r, c) ==
    IF k = "limit" THEN (Pattern(k, r, c) * (Large(f) \div 6)) - (IF Unsigned(f) THEN 0 ELSE IF (r + c) % 2 = 1 THEN 2 * Pattern(k, r, c) * (Large(f) \div 6) ELSE 0)
    ELSE Pattern(k, r, c)

(* Layouts: cell of an element                                             *)
View(l) ==
    CASE l \in {"C", "readonly", "subclass"} -> [off |-> 0, sr |-> C, sc |-> 1]
      [] l = "F" -> [off |-> 0, sr |-> 1, sc |-> R]
      [] l = "strided" -> [off |-> 1, sr |-> 4 * C, sc |-> 2]
      [] l = "reversed" -> [off |-> R * C - 1, sr |-> -C, sc |-> -1]
      [] l = "window" -> [off |-> C + 3, sr |-> C + 2, sc |-> 1]
      [] l = "broadcast" -> [off |-> 0, sr |-> 1, sc |-> 0]
Cell(l, r, c) == View(l).off + r * View(l).sr + c * View(l).sc
Size == 1 + View("strided").off + (R - 1) * View("strided").sr + (C - 1) * View("strided").sc
Junk == 77
Store(a) ==
    [i \in 0..Size-1 |->
        IF \E r \in Rows, c \in Cols : Cell(a.layout, r, c) = i
        THEN LET p == CHOOSE p \in Rows \X Cols : Cell(a.layout, p[1], p[2]) = i IN Value(a.field, a.format, p[1], p[2])
        ELSE Junk]
Load(a, m) == [r \in Rows |-> [c \in Cols |-> m[Cell(a.layout, r, c)]]]
Logical(a) == [r \in Rows |-> [c \in Cols |-> Value(a.field, a.format, r, c)]]

\* zero strides repeat a column: only for fields that do not vary with longitude
Possible(a) == a.layout = "broadcast" => a.field = "symmetric"

(* Machine arithmetic of a format: differences wrap around                 *)
Wrap(f, x) == LET lo == Range(f)[1]
                  n == Range(f)[2] - lo + 1
              IN IF f \in {"u1", "i1", "u2", "i2", "i2be"} THEN lo + ((x - lo) % n) ELSE x
Differences(a) == {Value(a.field, a.format, p[1], p[2]) - Value(a.field, a.format, q[1], q[2]) : p, q \in Rows \X Cols}
\* would the operation be wrong if it calculated in the format of the field?
Overflows(a) == \E d \in Differences(a) : Wrap(a.format, d) # d

Arity(o) == IF o \in {"wind", "from_wind", "add_wind", "vorticity", "divergence", "dataset", "quad", "quad_boxcount", "quad_meridional",
                      "window_zonal", "window_meridional", "falwa_levels", "by_both"} THEN 2 ELSE 1
\* components of a vector have signs
Signed(o) == o \in {"wind", "from_wind", "add_wind", "vorticity", "divergence", "dataset"}
\* the dominant wavenumber of a field without waves is arbitrary; contours of
\* such fields enclose whole rows of boxes, the profile can jump at a latitude
\* of the grid
Wavy(o) == o \in {"wavenumber", "zonalize_boxcount", "falwa_boxcount"}
Usable(o, a) == /\ Signed(o) => ~Unsigned(a.format)
                /\ Wavy(o) => a.field # "symmetric"

Arrays == {a \in [field : Fields, layout : Layouts, format : Formats] : Possible(a)}
Writable(a) == a.layout \notin {"readonly", "broadcast"}

\* random choices (simulation)
Pick(n, S) == IF Sampling /\ Cardinality(S) > n THEN RandomSubset(n, S) ELSE S

Init == arr = <<>> /\ mem = <<>> /\ hist = <<>> /\ done = FALSE

Log(do, name, op, args, field) == [do |-> do, name |-> name, op |-> op, args |-> args, field |-> field, vals |-> <<>>]
New == /\ Len(arr) < NArrays
       /\ \E a \in Pick(2, Arrays) : /\ arr' = Append(arr, a)
                            /\ mem' = Append(mem, Store(a))
                            /\ hist' = Append(hist, [Log("new", Len(arr) + 1, "", <<>>, a.field) EXCEPT !.vals = <<a>>])
       /\ UNCHANGED done

\* other values are written to the cells of the array
Fill == \E n \in Pick(1, Names), k \in Fields :
            LET a == [arr[n] EXCEPT !.field = k]
            IN /\ Writable(arr[n])
               /\ k # arr[n].field
               /\ arr' = [arr EXCEPT ![n] = a]
               /\ mem' = [mem EXCEPT ![n] = [i \in DOMAIN @ |-> IF \E p \in Rows \X Cols : Cell(a.layout, p[1], p[2]) = i
                                                               THEN LET p == CHOOSE p \in Rows \X Cols : Cell(a.layout, p[1], p[2]) = i
                                                                    IN Value(k, a.format, p[1], p[2])
                                                               ELSE @[i]]]
               /\ hist' = Append(hist, Log("fill", n, "", <<>>, k))
               /\ UNCHANGED done

Use(o, args) ==
    /\ \A i \in DOMAIN args : Usable(o, arr[args[i]])
    /\ hist' = Append(hist, [Log("use", 0, o, args, "") EXCEPT !.vals = [i \in DOMAIN args |-> [seen |-> Load(arr[args[i]], mem[args[i]]), was |-> arr[args[i]]]]])
    /\ UNCHANGED <<mem, arr, done>>

Next == \/ /\ Len(hist) < Depth
           /\ \/ New
              \/ Fill
              \/ \E o \in Pick(6, Ops) : \E args \in Pick(1, [1..Arity(o) -> Names]) : Use(o, args)
        \/ /\ Len(hist) = Depth /\ ~done
           /\ done' = TRUE
           /\ UNCHANGED <<mem, arr, hist>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A n \in Names : \A i \in 0..Size-1 : mem[n][i] = Junk \/ mem[n][i] \in Range(arr[n].format)[1]..Range(arr[n].format)[2]
\* views are injective (except for repeated columns) and inside of the buffer
Sound == \A l \in Layouts : /\ \A r \in Rows, c \in Cols : Cell(l, r, c) \in 0..Size-1
                            /\ l # "broadcast" => Cardinality({Cell(l, r, c) : r \in Rows, c \in Cols}) = R * C
\* operations see the field as it is at that time, whatever the layout, and write nothing
ValuesOnly == \A i \in DOMAIN hist : hist[i].do = "use" => \A k \in DOMAIN hist[i].args : hist[i].vals[k].seen = Logical(hist[i].vals[k].was)
NoWrite == \A n \in Names : mem[n] = Store(arr[n])

Emit == done => PrintT("@@" \o ToJson([hist |-> [i \in DOMAIN hist |->
            [hist[i] EXCEPT !.vals = IF hist[i].do = "new" THEN @ ELSE [k \in DOMAIN @ |-> [overflows |-> Overflows(@[k].was)]]]]]))
=============================================================================
