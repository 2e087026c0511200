------------------------------ MODULE MC_Measures -----------------------------
(***************************************************************************)
(* An aircraft that is moved, scaled, extended and changed.                *)
(***************************************************************************)
EXTENDS Measures, Json

CONSTANT MaxLen

V3(x, y, z) == <<x, y, z>>
Base == << [sym |-> "2", segs |-> << [a |-> V3("0.0", "0.0", "0.0"), b |-> V3("1.0", "2.0", "0.5"), c |-> V3("2.0", "2.0", "0.25"), d |-> V3("2.0", "0.0", "0.25"), ia |-> "0.25", oa |-> "0.25"] >>] >>
VARIABLES ac, got, hist, last
vars == <<ac, got, hist, last>>
Init == ac = Base /\ got = All(Base) /\ hist = <<>> /\ last = [op |-> "start"]
Do(e) == LET n == TLCEval(After(ac, e)) IN ac' = n /\ got' = All(n) /\ hist' = Append(hist, e) /\ last' = e
Next == /\ Len(hist) < MaxLen
        /\ \/ Do([op |-> "shift", v |-> V3("3.0", "-1.5", "10.0")])
           \/ \E k \in {"0.5", "3.0"} : Do([op |-> "scale", k |-> k])
           \/ Do([op |-> "flip"])
           \/ Do([op |-> "again"])
           \/ \E w \in DOMAIN ac : \/ \E t \in {"0", "1", "2", "3"} \ {ac[w].sym} : Do([op |-> "sym", w |-> w, to |-> t])
                                   \/ Len(ac[w].segs) < 3 /\ \E v \in { V3("0.25", "1.0", "0.25"), V3("0.0", "0.5", "1.0") } : Do([op |-> "extend", w |-> w, v |-> v])
                                   \/ \E i \in {1, Len(ac[w].segs)} : \/ Do([op |-> "axis", w |-> w, i |-> i, ia |-> "0.5", oa |-> "0.125"])
                                                                \/ \E p \in Points : Do([op |-> "vertex", w |-> w, i |-> i, p |-> p, v |-> V3("0.0", "0.125", "-0.25")])
           \/ Len(ac) < 2 /\ \E t \in {"0", "1"} : Do([op |-> "add", v |-> V3("5.0", "0.0", "1.0"), to |-> t])
Spec == Init /\ [][Next]_vars
View == <<ac, got, last, Len(hist)>>
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))

Near(x, y) == FNear(x, y, "1e-9")
Positions == \A w \in DOMAIN ac : LET g == got.wings[w] IN
    /\ Near(g.segs[1].inner, "0.0") /\ Near(g.segs[Len(g.segs)].outer, "1.0")
    /\ \A i \in DOMAIN g.segs : FLt(g.segs[i].inner, g.segs[i].outer)
    /\ \A i \in 1..(Len(g.segs) - 1) : Near(g.segs[i].outer, g.segs[i + 1].inner)
Sums == /\ Near(got.area, FSum([ w \in DOMAIN got.wings |-> got.wings[w].area ]))
        /\ \A w \in DOMAIN got.wings : Near(got.wings[w].span, FSum([ i \in DOMAIN got.wings[w].segs |-> got.wings[w].segs[i].m.span ]))
\* no point of the aircraft is farther from another than its size
Bounded == \A w \in DOMAIN ac : \A i \in DOMAIN ac[w].segs : FLe(VNorm(VSub(ac[w].segs[i].a, ac[w].segs[i].c)), FAdd(got.size, "1e-9"))
SameFields(f, g, F) == \A w \in DOMAIN f.wings : \A i \in DOMAIN f.wings[w].segs : \A x \in F : Near(f.wings[w].segs[i].m[x], g.wings[w].segs[i].m[x])
Angles == {"inner_alpha", "outer_alpha", "inner_beta", "outer_beta", "sweep", "dihedral"}
Lengths == {"inner_chord", "outer_chord", "span"}
ShiftLaw == [][ last'.op = "shift" => SameFields(got, got', Angles \cup Lengths \cup {"area"}) ]_vars
NoSymmetry == \A w \in DOMAIN ac : ac[w].sym = "0"
ShiftKeepsSize == [][ last'.op = "shift" /\ NoSymmetry => Near(got.size, got'.size) ]_vars
ScaleLaw == [][ last'.op = "scale" => /\ SameFields(got, got', Angles) /\ Near(got'.size, FMul(last'.k, got.size))
                                      /\ Near(got'.area, FMul(FSq(last'.k), got.area)) ]_vars
FlipLaw == [][ last'.op = "flip" => \A w \in DOMAIN got.wings : \A i \in DOMAIN got.wings[w].segs :
               LET m == got.wings[w].segs[i].m  n == got'.wings[w].segs[Len(got.wings[w].segs) + 1 - i].m IN
               /\ Near(m.inner_chord, n.outer_chord) /\ Near(m.outer_chord, n.inner_chord) /\ Near(m.inner_alpha, n.outer_alpha)
               /\ Near(m.inner_beta, FNeg(n.outer_beta)) /\ Near(m.span, n.span) /\ Near(m.sweep, FNeg(n.sweep)) /\ Near(m.area, n.area)
               /\ Near(m.dihedral, FNeg(n.dihedral)) ]_vars
AddingGrows == [][ last'.op \in {"extend", "add"} => FLt(got.area, got'.area) /\ FLe(got.size, FAdd(got'.size, "1e-9")) ]_vars
OtherWingsStay == [][ last'.op \in {"vertex", "extend", "axis", "sym"} => \A w \in DOMAIN got.wings \ {last'.w} : got'.wings[w] = got.wings[w] ]_vars
SymmetryOnlySize == [][ last'.op = "sym" => got'.wings = got.wings /\ got'.area = got.area ]_vars
AxisOnlyDihedral == [][ last'.op = "axis" => SameFields(got, got', (Angles \ {"dihedral"}) \cup Lengths \cup {"area"}) ]_vars
\* measures and any one corner (or edge) describe the same segment
SameFromMeasures == \A w \in DOMAIN ac : \A i \in DOMAIN ac[w].segs :
    LET s == ac[w].segs[i] IN
    Describable(s) => \A way \in Ways : LET d == Described(way, s, got.wings[w].segs[i].m) IN \A p \in Points : VNear(d[p], s[p], "1e-9")
=============================================================================
