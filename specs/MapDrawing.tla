----------------------------- MODULE MapDrawing -----------------------------
(***************************************************************************)
(* Maps centered on a meridian. There are n columns (longitudes 0 to       *)
(* n - 1, in grid steps) drawn from left to right at positions 0 to n - 1. *)
(* The center is given in quarters of the grid step and may be any number. *)
(* A figure consists of panels; the overlays of a panel share positions    *)
(* and tick labels.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, Centers(_), Presets, Figures, Heights, Strides
VARIABLES n, center, mid, figures, vectors
vars == <<n, center, mid, figures, vectors>>

\* distance on the circle, in quarters
Dist(m, a, b) == LET d == (a - b) % (4 * m) IN IF 2 * d > 4 * m THEN 4 * m - d ELSE d
Nearest(m, c) ==
    LET all == {Dist(m, 4 * j, c) : j \in 0..(m - 1)}
        least == CHOOSE d \in all : \A e \in all : d <= e
    IN {j \in 0..(m - 1) : Dist(m, 4 * j, c) = least}

\* column shown at a position, given the one in the middle
Column(m, j, p) == (p - (m \div 2) + j) % m
\* what the label at a position says
Label(m, j, p) == (p + (j - (m \div 2))) % m

\* fields (filled, lines), vectors and profiles of all panels with axes
Map(fields, arrows) == [kind |-> "map", fields |-> fields, arrows |-> arrows]
Profile(lines) == [kind |-> "profile", fields |-> lines, arrows |-> FALSE]
Panels(preset) ==
    CASE preset = "summary" -> << Profile({"planetary", "vorticity", "pv"}), Map({"pv"}, TRUE), Profile({"u"}), Map({"v", "streamfunction"}, FALSE) >>
      [] preset = "wave_activity" -> << Profile({"zonalized", "pv"}), Map({"deviation", "pv"}, FALSE), Profile({"fawa"}), Map({"falwa", "pv"}, FALSE) >>
      [] preset = "rwp_diagnostics" -> << Map({"v", "wavenumber"}, FALSE), Map({"envelope", "streamfunction"}, FALSE), Map({"filtered", "pv"}, FALSE) >>
      [] OTHER -> << Profile({"u"}), Profile({"stationary", "guides"}) >>

\* Thinning keeps every k-th row and column, starting in the middle of the first k
Stride(rows, ny) == IF rows \div ny > 1 THEN rows \div ny ELSE 1
Kept(size, k) == {i \in 0..(size - 1) : i % k = (k \div 2) % k}

Init ==
    /\ n \in Ns /\ center \in Centers(n) /\ mid \in Nearest(n, center)
    /\ figures = <<>> /\ vectors = <<>>
Draw(f, h, other) ==
    /\ Len(figures) < Figures
    /\ \E c \in {center} \cup other : \E j \in Nearest(n, c) :
         /\ center' = c /\ mid' = j
         /\ figures' = Append(figures, [preset |-> f, hemisphere |-> h, center |-> c, panels |-> Panels(f)])
    /\ UNCHANGED <<n, vectors>>
Thin(rows, ny) ==
    /\ Len(vectors) < Strides
    /\ LET k == Stride(rows, ny) IN vectors' = Append(vectors, [rows |-> rows, columns |-> n, ny |-> ny, k |-> k,
            keep |-> [rows |-> Kept(rows, k), columns |-> Kept(n, k)]])
    /\ UNCHANGED <<n, center, mid, figures>>
Next == \/ \E f \in Presets, h \in {"both", "N", "S"} : Draw(f, h, {})
        \/ \E r \in Heights, ny \in 1..30 : Thin(r, ny)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Positions == 0..(n - 1)
Labelled == \A p \in Positions : Label(n, mid, p) = Column(n, mid, p)
Middle == LET j == Column(n, mid, n \div 2) IN
    /\ j = mid
    /\ \A k \in Positions : Dist(n, 4 * j, center) <= Dist(n, 4 * k, center)
\* every meridian once, in order
EachOnce == {Column(n, mid, p) : p \in Positions} = Positions
InOrder == \A p \in Positions \ {0} : Column(n, mid, p) = (Column(n, mid, p - 1) + 1) % n
\* a full turn of the center changes nothing
Periodic == Nearest(n, center + 4 * n) = Nearest(n, center) /\ Nearest(n, center - 8 * n) = Nearest(n, center)
Thinned == \A i \in DOMAIN vectors : LET w == vectors[i] IN
    /\ w.keep.rows # {} /\ w.keep.rows \subseteq 0..(w.rows - 1)
    /\ (IF w.ny < w.rows THEN w.ny ELSE w.rows) <= Cardinality(w.keep.rows) /\ Cardinality(w.keep.rows) <= 2 * w.ny + 1

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Emit == (Len(figures) = Figures /\ Len(vectors) = Strides) =>
    PrintT("@@" \o ToJson([n |-> n, center |-> center, mid |-> mid, columns |-> [p \in 1..n |-> Column(n, mid, p - 1)], nearest |-> Sorted(Nearest(n, center)),
        figures |-> figures, vectors |-> [i \in DOMAIN vectors |-> [vectors[i] EXCEPT !.keep = [rows |-> Sorted(@.rows), columns |-> Sorted(@.columns)]]]]))

AllCenters(m) == (-6 * m)..(6 * m)
SomeCenters(m) == {-5 * m - 3, -4 * m + 1, -1, 0, 1, 2, 3, m, 2 * m - 1, 2 * m, 2 * m + 1, 4 * m - 3, 4 * m - 1, 4 * m, 5 * m + 3}
FigureCenters(m) == {-2 * m - 3, -1, 0, 2, 7, m + 1, 2 * m, 2 * m + 5, 3 * m - 7, 4 * m - 1, 4 * m + 9}
Zeros(m) == {0}
AllPresets == {"summary", "wave_activity", "rwp_diagnostics", "waveguides"}
=============================================================================
