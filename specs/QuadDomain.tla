----------------------------- MODULE QuadDomain -----------------------------
(***************************************************************************)
(* Domain of integration {z >= 0} along one meridian. z is given at the    *)
(* latitudes from north to south and linear in between; a segment          *)
(* <<i, a, b>> is the part from a to b (fractions of the interval, from    *)
(* its northern end) of the interval between points i and i+1. For the     *)
(* boxcounting scheme the domain consists of whole gridpoints.             *)
(***************************************************************************)
EXTENDS PLin, TLC, Json

CONSTANTS MaxLen, Vals

ValsQuick == -2..2
ValsThorough == -3..3
VARIABLES z, segs, boxes
vars == <<z, segs, boxes>>

Root(p, q) == Norm(p, p - q)              \* zero of the line from p to q, p and q of opposite sign
Seg(i, p, q) ==
    IF p >= 0 /\ q >= 0 THEN <<[i |-> i, a |-> Zero, b |-> One]>>
    ELSE IF p < 0 /\ q < 0 THEN <<>>
    ELSE IF p >= 0 THEN (IF p = 0 THEN <<>> ELSE <<[i |-> i, a |-> Zero, b |-> Root(p, q)]>>)
    ELSE (IF q = 0 THEN <<>> ELSE <<[i |-> i, a |-> Root(p, q), b |-> One]>>)
RECURSIVE SegsOf(_, _)
SegsOf(s, i) == IF i >= Len(s) THEN <<>> ELSE Seg(i, s[i], s[i + 1]) \o SegsOf(s, i + 1)

Init == z = <<>> /\ segs = <<>> /\ boxes = {}
\* one more latitude to the south
AddPoint(v) == /\ Len(z) < MaxLen
               /\ z' = Append(z, v)
               /\ segs' = IF z = <<>> THEN <<>> ELSE segs \o Seg(Len(z), z[Len(z)], v)
               /\ boxes' = IF v >= 0 THEN boxes \cup {Len(z) + 1} ELSE boxes
Next == \E v \in Vals : AddPoint(v)
Spec == Init /\ [][Next]_vars

Length(ss) == SumQ([k \in DOMAIN ss |-> Sub(ss[k].b, ss[k].a)])
Neg1(s) == [k \in DOMAIN s |-> 0 - s[k]]
ZeroRuns == Cardinality({i \in 1..(Len(z) - 1) : z[i] = 0 /\ z[i + 1] = 0})
\* Extending the meridian does not change the domain further north
Incremental == segs = SegsOf(z, 1)
Valid == \A k \in DOMAIN segs : Leq(Zero, segs[k].a) /\ Less(segs[k].a, segs[k].b) /\ Leq(segs[k].b, One)
\* z and -z: complementary, overlapping only where z vanishes
Complement == z # <<>> => Add(Length(segs), Length(SegsOf(Neg1(z), 1))) = Q(Len(z) - 1 + ZeroRuns)
BoxComplement == \A i \in DOMAIN z : (z[i] >= 0) = (i \in boxes)
\* Reversing the meridian mirrors the domain
Mirror == Length(SegsOf(Reverse(z), 1)) = Length(segs)
\* A larger field has a larger domain
Monotone == z # <<>> => Leq(Length(segs), Length(SegsOf([k \in DOMAIN z |-> z[k] + 1], 1)))

Emit == (Len(z) = MaxLen) => PrintT("@@" \o ToJson([z |-> z, segs |-> segs, boxes |-> boxes]))
=============================================================================
