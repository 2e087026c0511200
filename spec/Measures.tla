------------------------------- MODULE Measures -------------------------------
(***************************************************************************)
(* The measures of a wing which follow from its corner points.             *)
(* An aircraft is a sequence of wings [sym, segs]; a segment is            *)
(* [a, b, c, d, ia, oa]: corner points and the position of the twist axis  *)
(* on its inner and outer edge (fraction of the chord).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Flt

Angle(y, x) == FRad2Deg(FAtan2(y, x))
Incidence(le, te) == FNeg(Angle(FSub(te[3], le[3]), FSub(te[1], le[1])))
Yaw(le, te) == FNeg(Angle(FSub(te[2], le[2]), FSub(te[1], le[1])))
SegSpan(s) == LET v == VSub(s.b, s.a) IN FSqrt(FAdd(FSq(v[2]), FSq(v[3])))
Measure(s) ==
    LET ab == VSub(s.b, s.a)
        axis == VSub(VLerp(s.b, s.c, s.oa), VLerp(s.a, s.d, s.ia))
        span == SegSpan(s)
        ci == VNorm(VSub(s.d, s.a))  co == VNorm(VSub(s.c, s.b))
    IN  [inner_chord |-> ci, outer_chord |-> co,
         inner_alpha |-> Incidence(s.a, s.d), outer_alpha |-> Incidence(s.b, s.c),
         inner_beta |-> Yaw(s.a, s.d), outer_beta |-> Yaw(s.b, s.c),
         inner_axis |-> s.ia, outer_axis |-> s.oa,
         span |-> span, sweep |-> Angle(ab[1], span),
         dihedral |-> Angle(axis[3], axis[2]),
         area |-> FMul(span, FMul("0.5", FAdd(ci, co)))]

\* A segment may as well be described by some of its corner points and its measures.
\* The edges of the measures begin at their leading edge point; the leading edge
\* is turned so that the axis has the dihedral.
Tan(deg) == LET x == FDeg2Rad(deg) IN FDiv(FSin(x), FCos(x))
Edge(chord, alpha, beta) ==
    LET ta == Tan(alpha)  cb == FCos(FDeg2Rad(beta))
        r == FDiv(chord, FSqrt(FAdd("1.0", FSq(FMul(ta, cb)))))
    IN << FMul(r, cb), FNeg(FMul(r, FSin(FDeg2Rad(beta)))), FNeg(FMul(FMul(r, cb), ta)) >>
ASin(x) == FAtan2(x, FSqrt(FSub("1.0", FSq(x))))
Leading(m, ad, bc) ==
    LET off == VSub(VScale(m.outer_axis, bc), VScale(m.inner_axis, ad))
        d == FDeg2Rad(m.dihedral)
        up == FSub(FMul(off[3], FCos(d)), FMul(off[2], FSin(d)))
        le == FSub(d, ASin(FDiv(up, m.span)))
    IN << FMul(m.span, Tan(m.sweep)), FMul(m.span, FCos(le)), FMul(m.span, FSin(le)) >>
Ways == {"a", "b", "c", "d", "ad", "bc"}
Described(way, s, m) ==
    LET ad == IF way = "ad" THEN VSub(s.d, s.a) ELSE Edge(m.inner_chord, m.inner_alpha, m.inner_beta)
        bc == IF way = "bc" THEN VSub(s.c, s.b) ELSE Edge(m.outer_chord, m.outer_alpha, m.outer_beta)
        ab == Leading(m, ad, bc)
        a == CASE way \in {"a", "ad"} -> s.a [] way \in {"b", "bc"} -> VSub(s.b, ab) [] way = "c" -> VSub(s.c, VAdd(ab, bc)) [] way = "d" -> VSub(s.d, ad)
    IN [s EXCEPT !.a = a, !.b = VAdd(a, ab), !.c = VAdd(VAdd(a, ab), bc), !.d = VAdd(a, ad)]
\* the measures determine a segment if it extends to starboard and is not twisted too far
Describable(s) ==
    LET ab == VSub(s.b, s.a)  axis == VSub(VLerp(s.b, s.c, s.oa), VLerp(s.a, s.d, s.ia))
        ahead(p, q) == FLt("0.01", FSub(q[1], p[1]))
    IN /\ FLt("0.01", axis[2]) /\ ahead(s.a, s.d) /\ ahead(s.b, s.c)
       /\ FLt("0.01", FAdd(FMul(ab[2], axis[2]), FMul(ab[3], axis[3])))

WingSpan(w) == FSum([ i \in DOMAIN w.segs |-> SegSpan(w.segs[i]) ])
WingArea(w) == FSum([ i \in DOMAIN w.segs |-> Measure(w.segs[i]).area ])
\* where segment i begins and ends, as fractions of the span
Inner(w, i) == FDiv(FSum([ j \in 1..(i - 1) |-> SegSpan(w.segs[j]) ]), WingSpan(w))
Outer(w, i) == FDiv(FSum([ j \in 1..i |-> SegSpan(w.segs[j]) ]), WingSpan(w))

\* sides of the wings, with mirror images (1: z, 2: y, 3: x changes its sign)
Axis(sym) == CASE sym = "1" -> 3 [] sym = "2" -> 2 [] sym = "3" -> 1 [] OTHER -> 0
Coords(ac, k) ==
    LET S == UNION { {w} \X (DOMAIN ac[w].segs) \X {"a", "b", "c", "d"} : w \in DOMAIN ac } IN
    { ac[t[1]].segs[t[2]][t[3]][k] : t \in S } \cup { FNeg(ac[t[1]].segs[t[2]][t[3]][k]) : t \in { u \in S : Axis(ac[u[1]].sym) = k } }
Extent(ac, k) == LET C == Coords(ac, k) IN
                 IF C = {} THEN "0.0" ELSE FSub(CHOOSE x \in C : \A y \in C : FLe(y, x), CHOOSE x \in C : \A y \in C : FLe(x, y))
Size(ac) == VNorm(<<Extent(ac, 1), Extent(ac, 2), Extent(ac, 3)>>)
Area(ac) == FSum([ w \in DOMAIN ac |-> WingArea(ac[w]) ])

All(ac) == [wings |-> [ w \in DOMAIN ac |-> [span |-> WingSpan(ac[w]), area |-> WingArea(ac[w]),
                        segs |-> [ i \in DOMAIN ac[w].segs |-> [m |-> Measure(ac[w].segs[i]), inner |-> Inner(ac[w], i), outer |-> Outer(ac[w], i)] ]] ],
            area |-> Area(ac), size |-> Size(ac)]

\* ------------------------------------------------------------------ changes
Points == {"a", "b", "c", "d"}
MapPoints(s, f(_)) == [s EXCEPT !.a = f(s.a), !.b = f(s.b), !.c = f(s.c), !.d = f(s.d)]
MapAll(ac, f(_)) == [ w \in DOMAIN ac |-> [ac[w] EXCEPT !.segs = [ i \in DOMAIN @ |-> MapPoints(@[i], f) ]] ]
Shift(ac, v) == MapAll(ac, LAMBDA p : VAdd(p, v))
Scale(ac, k) == MapAll(ac, LAMBDA p : VScale(k, p))
FlipY(p) == <<p[1], FNeg(p[2]), p[3]>>
\* the mirror image: root and tip change places
Flip(ac) == [ w \in DOMAIN ac |-> [ac[w] EXCEPT !.segs = [ j \in DOMAIN @ |-> LET s == @[Len(@) + 1 - j] IN
                [s EXCEPT !.a = FlipY(s.b), !.b = FlipY(s.a), !.c = FlipY(s.d), !.d = FlipY(s.c), !.ia = s.oa, !.oa = s.ia] ]] ]
After(ac, e) ==
    CASE e.op = "shift" -> Shift(ac, e.v)
      [] e.op = "scale" -> Scale(ac, e.k)
      [] e.op = "flip" -> Flip(ac)
      [] e.op = "sym" -> [ac EXCEPT ![e.w].sym = e.to]
      [] e.op = "axis" -> [ac EXCEPT ![e.w].segs[e.i].ia = e.ia, ![e.w].segs[e.i].oa = e.oa]
      [] e.op = "vertex" -> [ac EXCEPT ![e.w].segs[e.i] = [@ EXCEPT !.a = IF e.p = "a" THEN VAdd(@, e.v) ELSE @, !.b = IF e.p = "b" THEN VAdd(@, e.v) ELSE @,
                                                                    !.c = IF e.p = "c" THEN VAdd(@, e.v) ELSE @, !.d = IF e.p = "d" THEN VAdd(@, e.v) ELSE @]]
      [] e.op = "extend" -> [ac EXCEPT ![e.w].segs = Append(@, LET s == @[Len(@)] IN
                                [a |-> s.b, b |-> VAdd(s.b, e.v), c |-> VAdd(s.c, e.v), d |-> s.c, ia |-> "0.25", oa |-> "0.25"])]
      [] e.op = "add" -> Append(ac, [ac[1] EXCEPT !.segs = MapAll(<<ac[1]>>, LAMBDA p : VAdd(p, e.v))[1].segs, !.sym = e.to])
      [] OTHER -> ac
=============================================================================
