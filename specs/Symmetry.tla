------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Nothing depends on the choice of the zero meridian, on which pole is    *)
(* called north, or on the units of length and time (including the origin  *)
(* of time). A program of operations is executed twice, in lock-step: in   *)
(* one world and in that world moved by a group element g (rotation by a   *)
(* number of gridpoints, reflection at the equator, length scale, time     *)
(* scale, time origin). Every value has a type: its kind, its dimension    *)
(* (powers of length and time) and its parity under the reflection. The    *)
(* values must remain related by the action of g on values of that type.   *)
(*                                                                         *)
(* The model computes both executions in a toy world of 5 latitudes and 4  *)
(* longitudes with small integers (clipped, which respects the symmetry)   *)
(* and keeps track of the powers of the scales operationally, from those   *)
(* of radius, rotation rate and time step. The operations stand for those  *)
(* of the code: same symmetry, simpler values. This decides what is to be  *)
(* expected of the code (type and transformation of all parameters); the   *)
(* programs are replayed in the code with real fields.                     *)
(*                                                                         *)
(*   g       group element                                                 *)
(*   prog    operations so far                                             *)
(*   typ     type of the current value                                     *)
(*   st, cur state (PV) and current value, of both worlds                  *)
(*   wavy    is there a wave in the state, the current value?              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Elements, Starts, Models, Attributes, Operations, Depth

VARIABLES g, prog, typ, st, cur, wavy
vars == <<g, prog, typ, st, cur, wavy>>

J == 5
I == 4
Rows == 1..J
Cols == 0..I-1

G(roll, flip, len, tim, shift) == [roll |-> roll, flip |-> flip, len |-> len, tim |-> tim, shift |-> shift]
One == G(0, 0, 0, 0, 0)
\* the radius of the planet and some hours as units: len = -23, tim = -16
\* the origin of time hours or (as in a calendar) many years ago, or to come
Far == 1048576
QuickElements == {G(1, 0, 0, 0, 1), G(6, 1, 0, 0, Far), G(0, 0, -23, -16, 0), G(0, 0, -20, 12, -3)}
ThoroughElements == {G(1, 0, 0, 0, 1), G(0, 1, 0, 0, 0), G(0, 0, -23, -16, 0), G(0, 0, -20, 2, -3), G(18, 1, -1, 6, Far)}
Units == {<<0, 0>>, <<0, -2>>, <<0, 5>>, <<2, 0>>, <<1, -1>>, <<-23, -16>>, <<-20, 0>>, <<-20, 12>>}
SimElements == {G(r, f, l[1], l[2], s) : r \in {0, 1, 6, 11, 12, 23}, f \in {0, 1}, l \in Units, s \in {0, 1, -3, Far}}

-----------------------------------------------------------------------------
(* Types *)
T(kind, len, tim, odd) == [kind |-> kind, len |-> len, tim |-> tim, odd |-> odd]
None == T("none", 0, 0, 0)

(* Action of a group element on values. A value is a mantissa m with a     *)
(* binary exponent e.                                                      *)
Sign(odd, h) == IF odd = 1 /\ h.flip = 1 THEN -1 ELSE 1
Row(j, h) == IF h.flip = 1 THEN J + 1 - j ELSE j
Col(i, h) == (i - h.roll) % I
ActField(m, odd, h) == [j \in Rows |-> [i \in Cols |-> Sign(odd, h) * m[Row(j, h)][Col(i, h)]]]
ActProfile(m, odd, h) == [j \in Rows |-> Sign(odd, h) * m[Row(j, h)]]
ActAround(m, odd, h) == [i \in Cols |-> Sign(odd, h) * m[Col(i, h)]]
Act(t, x, h) ==
    [m |-> CASE t.kind = "field" -> ActField(x.m, t.odd, h)
             [] t.kind = "vector" -> <<ActField(x.m[1], t.odd, h), ActField(x.m[2], 1 - t.odd, h)>>
             [] t.kind \in {"profile", "ks2"} -> ActProfile(x.m, t.odd, h)
             [] t.kind = "around" -> ActAround(x.m, t.odd, h)
             [] t.kind = "number" -> Sign(t.odd, h) * x.m
             [] OTHER -> x.m,
     e |-> x.e + t.len * h.len + t.tim * h.tim]

-----------------------------------------------------------------------------
(* The toy world *)
Clip(x) == IF x > 9 THEN 9 ELSE IF x < -9 THEN -9 ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
\* evaluated once (TLC does not remember values of functions)
Fld(f(_, _)) == [j \in Rows |-> [i \in Cols |-> Clip(f(j, i))]]
Pro(f(_)) == [j \in Rows |-> Clip(f(j))]
North(j) == IF j = 1 THEN 1 ELSE j - 1
South(j) == IF j = J THEN J ELSE j + 1
East(i) == (i + 1) % I
West(i) == (i - 1) % I
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, J)
Around(f) == f[0] + f[1] + f[2] + f[3]
\* area weights
W(j) == IF j \in {1, J} THEN 1 ELSE 2

Plus(a, b) == Fld(LAMBDA j, i : a[j][i] + b[j][i])
Minus(a, b) == Fld(LAMBDA j, i : a[j][i] - b[j][i])
Times(a, b) == Fld(LAMBDA j, i : a[j][i] * b[j][i])
DX(a) == Fld(LAMBDA j, i : a[j][East(i)] - a[j][West(i)])
DY(a) == Fld(LAMBDA j, i : a[North(j)][i] - a[South(j)][i])
Lap(a) == Fld(LAMBDA j, i : a[j][East(i)] + a[j][West(i)] + a[North(j)][i] + a[South(j)][i] - 4 * a[j][i])
Smooth(a) == Fld(LAMBDA j, i : a[j][i] + a[j][East(i)] + a[j][West(i)] + a[North(j)][i] + a[South(j)][i])
ZMean(a) == Pro(LAMBDA j : Around(a[j]))
Mean(a) == Clip(Sum([j \in Rows |-> W(j) * Around(a[j])]))
MMean(a) == [i \in Cols |-> Clip(Sum([j \in Rows |-> W(j) * a[j][i]]))]
Spread(p) == Fld(LAMBDA j, i : p[j])
\* a nonlinear operation that keeps the parity: sorted values (zonalization)
Count(a, P(_)) == Cardinality({c \in Rows \X Cols : P(a[c[1]][c[2]])})
Zonalize(a) == Pro(LAMBDA j : CHOOSE q \in -9..9 :
                    /\ 4 * j - 2 > Count(a, LAMBDA x : x > q) /\ 4 * j - 2 <= Count(a, LAMBDA x : x >= q))
\* middle of each row of the sorted values, so that it is symmetric
ZonalizeSym(a) == LET p == Zonalize(a)
                      n == Zonalize([j \in Rows |-> [i \in Cols |-> -a[j][i]]])
                  IN Pro(LAMBDA j : p[j] - n[J + 1 - j])

\* parameters of the world moved by h
Coriolis(h) == [m |-> [j \in Rows |-> [i \in Cols |-> 3 - j]], e |-> -h.tim]
Radius(h) == h.len
Step(h) == h.tim
\* a mountain: center moved along
Mountain(h) == [m |-> [j \in Rows |-> [i \in Cols |-> IF j = Row(2, h) /\ Col(i, h) = 1 THEN 3 ELSE IF j = Row(2, h) /\ Col(i, h) = 2 THEN 1 ELSE 0]], e |-> h.len]
ScaleHeight(h) == h.len
\* reference PV and forcing fields
Reference(h) == [m |-> ActField([j \in Rows |-> [i \in Cols |-> 3 - j + (IF i = 1 /\ j = 4 THEN 2 ELSE 0)]], 1, h), e |-> -h.tim]
Source(h) == [m |-> ActField([j \in Rows |-> [i \in Cols |-> IF i = 3 /\ j <= 2 THEN 1 ELSE 0]], 1, h), e |-> -2 * h.tim]
Rate(h) == -h.tim

(* The flow that belongs to the PV *)
\* both summands must have the same dimension
Same(e, f) == Assert(e = f, <<"dimensions", e, f>>)
Vort(q, h) == IF Same(q.e, Coriolis(h).e) THEN [m |-> Minus(q.m, Coriolis(h).m), e |-> q.e] ELSE q
Psi(q, h) == LET z == Vort(q, h) IN [m |-> Smooth(z.m), e |-> z.e + 2 * Radius(h)]
U(q, h) == LET p == Psi(q, h) IN [m |-> Fld(LAMBDA j, i : -DY(p.m)[j][i]), e |-> p.e - Radius(h)]
V(q, h) == LET p == Psi(q, h) IN [m |-> DX(p.m), e |-> p.e - Radius(h)]
Flux(q, h) == LET a == U(q, h)
                  b == V(q, h)
              IN [m |-> Plus(Times(a.m, DX(q.m)), Times(b.m, DY(q.m))), e |-> a.e + q.e - Radius(h)]
Oro(q, h) == LET a == U(q, h)
                 b == V(q, h)
                 hh == Mountain(h)
             IN [m |-> Times(Coriolis(h).m, Plus(Times(a.m, DX(hh.m)), Times(b.m, DY(hh.m)))),
                 e |-> Coriolis(h).e - ScaleHeight(h) + a.e + hh.e - Radius(h)]
Forcing(k, q, h) ==
    CASE k \in {"mountain", "array", "sine", "zonal", "refcor", "switched"} -> Oro(q, h)
      [] k = "sbr" -> LET hh == Mountain(h) IN [m |-> Times(Coriolis(h).m, DX(hh.m)), e |-> Coriolis(h).e - ScaleHeight(h) + (Radius(h) - h.tim) + hh.e - Radius(h)]
      [] k = "relax" -> [m |-> Minus(Reference(h).m, q.m), e |-> IF Same(Reference(h).e, q.e) THEN Rate(h) + q.e ELSE 0]
      [] k = "source" -> Source(h)
      [] OTHER -> [m |-> [j \in Rows |-> [i \in Cols |-> 0]], e |-> -2 * h.tim]
Run(k, q, h) ==
    LET a == Flux(q, h)
        f == Forcing(k, q, h)
    IN IF Same(a.e, f.e) /\ Same(a.e + Step(h), q.e)
       THEN [m |-> Plus(Minus(q.m, a.m), f.m), e |-> q.e] ELSE q

\* the sine mountains cannot be rotated by other than their period (90 degrees of 360, in 24 gridpoints)
Runnable(k) == k = "sine" => g.roll % 6 = 0

Start(k, h) ==
    LET wave == ActField([j \in Rows |-> [i \in Cols |-> (IF i = 0 /\ j = 2 THEN 2 ELSE 0) - (IF i = 2 /\ j >= 3 THEN 1 ELSE 0)]], 1, h)
        jet == ActField([j \in Rows |-> [i \in Cols |-> IF j = 2 THEN 2 ELSE IF j = 3 THEN -2 ELSE 0]], 1, h)
        c == Coriolis(h).m
    IN [m |-> CASE k \in {"pv", "spectral", "vorticity", "wind"} -> Plus(c, wave)
                [] k = "jet" -> Plus(c, jet)
                [] k = "jetwave" -> Plus(Plus(c, jet), wave)
                [] OTHER -> c,
        e |-> -h.tim]

-----------------------------------------------------------------------------
(* Attributes of the state: type, and value in the toy world               *)
AttrType(a) ==
    CASE a \in {"pv", "avo", "vorticity"} -> T("field", 0, -1, 1)
      [] a = "u" -> T("field", 1, -1, 0)
      [] a = "v" -> T("field", 1, -1, 1)
      [] a = "streamfunction" -> T("field", 2, -1, 1)
      [] a = "energy" -> T("field", 2, -2, 0)
      [] a \in {"enstrophy", "eddy_enstrophy"} -> T("field", 0, -2, 0)
      [] a = "pv_flux" -> T("field", 0, -2, 1)
      [] a \in {"falwa", "falwa_filtered", "envelope", "falwa_boxcount"} -> T("field", 1, -1, 0)
      [] a = "wind" -> T("vector", 1, -1, 0)
      [] a = "pv_zonalized" -> T("profile", 0, -1, 1)
      [] a = "fawa" -> T("profile", 1, -1, 0)
      [] a = "wavenumber" -> T("profile", 0, 0, 0)
      \* may be infinite: not processed further
      [] a = "ks2" -> T("ks2", 0, 0, 0)
      [] a = "waveguides" -> T("bands", 0, 0, 0)
NeedsWave == {"falwa_filtered", "wavenumber"}
\* stand-in with the dimension of a wind, even
Activity(q, h) == [m |-> LET z == ZMean(q.m) IN Fld(LAMBDA j, i : Abs(4 * q.m[j][i] - z[j])), e |-> q.e + Radius(h)]
AttrValue(a, q, h) ==
    CASE a \in {"pv", "avo"} -> q
      [] a = "vorticity" -> Vort(q, h)
      [] a = "u" -> U(q, h)
      [] a = "v" -> V(q, h)
      [] a = "streamfunction" -> Psi(q, h)
      [] a = "energy" -> LET x == U(q, h)
                             y == V(q, h)
                         IN [m |-> Plus(Times(x.m, x.m), Times(y.m, y.m)), e |-> 2 * x.e]
      [] a = "enstrophy" -> [m |-> Times(q.m, q.m), e |-> 2 * q.e]
      [] a = "eddy_enstrophy" -> LET d == LET z == ZMean(q.m) IN Fld(LAMBDA j, i : 4 * q.m[j][i] - z[j]) IN [m |-> Times(d, d), e |-> 2 * q.e]
      [] a = "pv_flux" -> Flux(q, h)
      [] a \in {"falwa", "falwa_filtered", "falwa_boxcount"} -> Activity(q, h)
      [] a = "envelope" -> LET y == V(q, h) IN [m |-> Fld(LAMBDA j, i : Abs(y.m[j][i]) + Abs(y.m[j][East(i)] - y.m[j][West(i)])), e |-> y.e]
      [] a = "wind" -> [m |-> <<U(q, h).m, V(q, h).m>>, e |-> U(q, h).e]
      [] a = "pv_zonalized" -> [m |-> ZonalizeSym(q.m), e |-> q.e]
      [] a = "fawa" -> LET x == Activity(q, h) IN [m |-> ZMean(x.m), e |-> x.e]
      [] a = "ks2" -> LET x == U(q, h)
                          z == ZMean(DY(q.m))
                          w == ZMean(x.m)
                      IN [m |-> Pro(LAMBDA j : IF w[j] = 0 THEN 9 * (IF z[j] > 0 THEN 1 ELSE IF z[j] < 0 THEN -1 ELSE 0) ELSE z[j] * (IF w[j] < 0 THEN -1 ELSE 1)),
                          e |-> 2 * Radius(h) + (q.e - Radius(h)) - x.e]
      [] a = "wavenumber" -> LET y == V(q, h) IN [m |-> Pro(LAMBDA j : IF y.m[j][0] + y.m[j][2] = y.m[j][1] + y.m[j][3] THEN 1 ELSE 2), e |-> 0]
      [] a = "waveguides" -> [m |-> 0, e |-> 0]

-----------------------------------------------------------------------------
(* Operations on the current value: kind of operand, type of the result    *)
\* multiplication adds dimensions and parities
Product(t, a) == T(t.kind, t.len + a.len, t.tim + a.tim, (t.odd + a.odd) % 2)
OpKind(o) ==
    CASE o \in {"laplace", "poisson", "poisson_add", "diffuse", "derivative2", "derivative4", "gradient", "hann_zonal", "boxcar_meridional",
                "window_meridional", "window_zonal", "by_wavenumber", "envelope_of", "times_u", "times_v", "times_pv", "zonal_mean",
                "meridional_mean", "mean", "region_mean", "region", "quad", "quad_meridional", "quad_domain", "zonalize",
                "roundtrip_spectral", "as_vorticity", "as_pv", "plus_vorticity"} -> "field"
      [] o \in {"curl", "divergence", "recombine", "first", "as_wind", "plus_wind"} -> "vector"
      [] o \in {"derivative_profile", "smooth_profile", "as_field", "as_u_profile", "as_pv_profile", "interpolate"} -> "profile"
ToState == {"as_vorticity", "as_pv", "plus_vorticity", "as_wind", "plus_wind", "as_u_profile", "as_pv_profile"}
OpType(o, t) ==
    CASE o = "laplace" -> [t EXCEPT !.len = @ - 2]
      [] o \in {"poisson", "poisson_add"} -> [t EXCEPT !.len = @ + 2]
      [] o \in {"derivative2", "derivative4"} -> [t EXCEPT !.odd = 1 - @]
      [] o = "gradient" -> T("vector", t.len - 1, t.tim, t.odd)
      [] o = "times_u" -> Product(t, AttrType("u"))
      [] o = "times_v" -> Product(t, AttrType("v"))
      [] o = "times_pv" -> Product(t, AttrType("pv"))
      [] o = "envelope_of" -> [t EXCEPT !.odd = 0]
      [] o \in {"zonal_mean", "zonalize"} -> [t EXCEPT !.kind = "profile"]
      [] o = "meridional_mean" -> [t EXCEPT !.kind = "around"]
      [] o \in {"mean", "region_mean"} -> [t EXCEPT !.kind = "number"]
      [] o = "region" -> [t EXCEPT !.kind = "patch"]
      [] o \in {"quad", "quad_domain"} -> T("number", t.len + 2, t.tim, t.odd)
      [] o = "quad_meridional" -> T("around", t.len + 1, t.tim, t.odd)
      [] o = "curl" -> T("field", t.len - 1, t.tim, 1 - t.odd)
      [] o = "divergence" -> T("field", t.len - 1, t.tim, t.odd)
      [] o = "first" -> [t EXCEPT !.kind = "field"]
      [] o = "derivative_profile" -> [t EXCEPT !.odd = 1 - @]
      [] o = "as_field" -> [t EXCEPT !.kind = "field"]
      [] OTHER -> t
\* what can be turned into a state
WellTyped(o, t) ==
    CASE o \in {"as_vorticity", "as_pv", "plus_vorticity"} -> t = AttrType("pv")
      [] o \in {"as_wind", "plus_wind"} -> t = AttrType("wind")
      \* largest values in the north: reflection has to change the sign
      [] o = "zonalize" -> t.odd = 1
      [] o = "as_u_profile" -> t = T("profile", 1, -1, 0)
      [] o = "as_pv_profile" -> t = AttrType("pv_zonalized")
      \* within the range of single precision
      [] o \in {"poisson", "poisson_add"} -> Abs(t.len) <= 2 /\ Abs(t.tim) <= 3
      [] OTHER -> Abs(t.len) <= 5 /\ Abs(t.tim) <= 4

OpValue(o, q, x, h) ==
    LET F(m, e) == [m |-> m, e |-> e]
        m == x.m
        r == Radius(h)
    IN CASE o = "laplace" -> F(Lap(m), x.e - 2 * r)
         [] o = "poisson" -> F(Smooth(m), x.e + 2 * r)
         [] o = "poisson_add" -> F(Plus(Smooth(m), m), x.e + 2 * r)
         [] o \in {"diffuse", "hann_zonal", "boxcar_meridional", "by_wavenumber"} -> F(Smooth(m), x.e)
         [] o = "roundtrip_spectral" -> x
         [] o \in {"derivative2", "derivative4"} -> F(DY(m), x.e)
         [] o = "gradient" -> F(<<DX(m), DY(m)>>, x.e - r)
         \* asymmetric windows: the meridional one is reversed in a reflected world
         [] o = "window_meridional" -> F(Fld(LAMBDA j, i : IF h.flip = 1 THEN m[j][i] + 2 * m[South(j)][i] ELSE m[j][i] + 2 * m[North(j)][i]), x.e)
         [] o = "window_zonal" -> F(Fld(LAMBDA j, i : m[j][i] + 2 * m[j][East(i)]), x.e)
         [] o = "envelope_of" -> F(Fld(LAMBDA j, i : Abs(m[j][i]) + Abs(m[j][East(i)] - m[j][West(i)])), x.e)
         [] o = "times_u" -> LET a == U(q, h) IN F(Times(m, a.m), x.e + a.e)
         [] o = "times_v" -> LET a == V(q, h) IN F(Times(m, a.m), x.e + a.e)
         [] o = "times_pv" -> F(Times(m, q.m), x.e + q.e)
         [] o = "zonal_mean" -> F(ZMean(m), x.e)
         [] o = "meridional_mean" -> F(MMean(m), x.e)
         [] o = "mean" -> F(Mean(m), x.e)
         \* rows 1 to 2 (4 to 5 in a reflected world), two columns
         [] o = "region_mean" -> LET a == Row(1, h)
                                     b == Row(2, h)
                                     c == (2 + h.roll) % I
                                     d == (3 + h.roll) % I
                                 IN F(Clip(W(a) * (m[a][c] + m[a][d]) + W(b) * (m[b][c] + m[b][d])), x.e)
         [] o = "region" -> F(0, x.e)
         [] o = "quad" -> F(Mean(m), x.e + 2 * r)
         [] o = "quad_domain" -> LET a == U(q, h) IN F(Mean([j \in Rows |-> [i \in Cols |-> IF a.m[j][i] + 1 >= 0 THEN m[j][i] ELSE 0]]), x.e + 2 * r)
         [] o = "quad_meridional" -> F(MMean(m), x.e + r)
         [] o = "zonalize" -> F(ZonalizeSym(m), x.e)
         [] o = "curl" -> F(Minus(DX(m[2]), DY(m[1])), x.e - r)
         [] o = "divergence" -> F(Plus(DX(m[1]), DY(m[2])), x.e - r)
         [] o = "recombine" -> x
         [] o = "first" -> F(m[1], x.e)
         [] o = "derivative_profile" -> F(Pro(LAMBDA j : IF j \in {1, J} THEN 0 ELSE m[j - 1] - m[j + 1]), x.e)
         [] o = "smooth_profile" -> F(Pro(LAMBDA j : m[North(j)] + m[j] + m[South(j)]), x.e)
         [] o = "interpolate" -> x
         [] o = "as_field" -> F(Spread(m), x.e)

ToPV(o, q, x, h) ==
    CASE o = "as_pv" -> x
      [] o \in {"as_vorticity"} -> IF Same(x.e, Coriolis(h).e) THEN [m |-> Plus(x.m, Coriolis(h).m), e |-> x.e] ELSE x
      [] o = "plus_vorticity" -> IF Same(x.e, q.e) THEN [m |-> Plus(x.m, q.m), e |-> x.e] ELSE x
      [] o \in {"as_wind", "plus_wind", "as_u_profile"} ->
            LET w == IF o = "as_u_profile" THEN <<Spread(x.m), [j \in Rows |-> [i \in Cols |-> 0]]>> ELSE x.m
                z == [m |-> Minus(DX(w[2]), DY(w[1])), e |-> x.e - Radius(h)]
                b == IF o = "plus_wind" THEN q ELSE Coriolis(h)
            IN IF Same(z.e, b.e) THEN [m |-> Plus(z.m, b.m), e |-> z.e] ELSE z
      [] o = "as_pv_profile" -> [m |-> Spread(x.m), e |-> x.e]

-----------------------------------------------------------------------------
Nothing == [m |-> 0, e |-> 0]
Init == /\ g \in Elements
        /\ \E k \in Starts :
              /\ prog = <<[op |-> "start", arg |-> k, typ |-> None]>>
              /\ st = <<Start(k, One), Start(k, g)>>
              /\ wavy = [st |-> k \in {"pv", "spectral", "vorticity", "wind", "jetwave"}, cur |-> FALSE]
        /\ typ = None
        /\ cur = <<Nothing, Nothing>>

Log(op, arg) == prog' = Append(prog, [op |-> op, arg |-> arg, typ |-> typ'])

Integrate(k) ==
    /\ Runnable(k)
    /\ st' = <<Run(k, st[1], One), Run(k, st[2], g)>>
    /\ UNCHANGED <<g, typ, cur, wavy>>
    /\ Log("run", k)
\* through a dataset and back, or other copies
Copy(k) == UNCHANGED <<g, st, typ, cur, wavy>> /\ Log("copy", k)

Look(a) ==
    /\ a \in NeedsWave => wavy.st
    /\ typ' = AttrType(a)
    /\ Log("get", a)
    /\ cur' = <<AttrValue(a, st[1], One), AttrValue(a, st[2], g)>>
    /\ wavy' = [wavy EXCEPT !.cur = wavy.st]
    /\ UNCHANGED <<g, st>>

Operate(o) ==
    /\ typ.kind = OpKind(o)
    /\ WellTyped(o, typ)
    /\ IF o \in ToState
       THEN /\ st' = <<ToPV(o, st[1], cur[1], One), ToPV(o, st[2], cur[2], g)>>
            /\ wavy' = [st |-> CASE o \in {"as_u_profile", "as_pv_profile"} -> FALSE
                                 [] o \in {"plus_vorticity", "plus_wind"} -> wavy.st \/ wavy.cur
                                 [] OTHER -> wavy.cur,
                        cur |-> FALSE]
            /\ typ' = None /\ cur' = <<Nothing, Nothing>>
       ELSE /\ cur' = <<OpValue(o, st[1], cur[1], One), OpValue(o, st[2], cur[2], g)>>
            /\ typ' = OpType(o, typ)
            /\ wavy' = [wavy EXCEPT !.cur = IF o \in {"as_field", "zonal_mean", "zonalize"} THEN FALSE ELSE @]
            /\ UNCHANGED st
    /\ Log("do", o)
    /\ UNCHANGED g

Next == /\ Len(prog) < Depth
        /\ \/ \E k \in Models : Integrate(k)
           \/ \E k \in {"wind", "avo"} : Copy(k)
           \/ \E a \in Attributes : Look(a)
           \/ \E o \in Operations : Operate(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The two worlds remain related                                           *)
Equivariant == /\ st[2] = Act(T("field", 0, -1, 1), st[1], g)
               /\ typ.kind \notin {"none", "patch", "bands"} => cur[2] = Act(typ, cur[1], g)
\* composition laws: what a chain of operators does to the type
Laws == LET t == T("field", 3, -2, 1)
        IN /\ OpType("divergence", OpType("gradient", t)) = OpType("laplace", t)
           /\ OpType("laplace", OpType("poisson", t)) = t
           /\ OpType("laplace", AttrType("streamfunction")) = AttrType("vorticity")
           /\ OpType("curl", AttrType("wind")) = AttrType("vorticity")
           /\ OpType("first", AttrType("wind")) = AttrType("u")
           /\ Product(AttrType("v"), AttrType("v")) = AttrType("energy")
           /\ Product(AttrType("pv"), AttrType("pv")) = AttrType("enstrophy")
           /\ OpType("divergence", T("vector", 1, -2, 1)) = AttrType("pv_flux")
           /\ OpType("zonal_mean", AttrType("falwa")) = AttrType("fawa")
           /\ OpType("zonalize", AttrType("pv")) = AttrType("pv_zonalized")

Emit == (Len(prog) = Depth \/ typ.kind \in {"patch", "bands", "ks2"}) => PrintT("@@" \o ToJson([g |-> g, prog |-> prog, typ |-> typ]))
=============================================================================
