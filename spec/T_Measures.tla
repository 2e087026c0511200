------------------------------ MODULE T_Measures ------------------------------
(***************************************************************************)
(* Traces of aircraft that are changed and generated again: the reported   *)
(* measures are those of the corner points.                                *)
(***************************************************************************)
EXTENDS TraceBase, Measures

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, ac |-> <<>>, m |-> [none |-> TRUE]]

Near(x, y) == FFinite(x) /\ FNear(x, y, FAdd("1e-9", FMul("1e-9", FAbs(y))))
\* angles in degrees; 180 and -180 are the same direction
SameAngle(x, y) == FFinite(x) /\ (FNear(x, y, "1e-7") \/ FNear(FAbs(FSub(x, y)), "360.0", "1e-7"))
Lengths == {"inner_chord", "outer_chord", "span", "inner_axis", "outer_axis", "area"}
Angles == {"inner_alpha", "outer_alpha", "inner_beta", "outer_beta", "sweep", "dihedral"}
EachSeg(e, n, P(_, _)) == \A w \in DOMAIN n.wings : \A i \in DOMAIN n.wings[w].segs : P(e.got.wings[w].segs[i], n.wings[w].segs[i])
\* exact area of a plane segment with parallel edges
Plane(s) == FEq(s.d[2], s.a[2]) /\ FEq(s.d[3], s.a[3]) /\ FEq(s.c[2], s.b[2]) /\ FEq(s.c[3], s.b[3])
Polygon(s) == FMul("0.5", VNorm(VCross(VSub(s.c, s.a), VSub(s.d, s.b))))

SameAc(x, y) == /\ Len(x) = Len(y)
                /\ \A w \in DOMAIN x : /\ x[w].sym = y[w].sym /\ Len(x[w].segs) = Len(y[w].segs)
                     /\ \A i \in DOMAIN x[w].segs : LET p == x[w].segs[i]  q == y[w].segs[i] IN
                          FEq(p.ia, q.ia) /\ FEq(p.oa, q.oa) /\ \A k \in Points : VNear(p[k], q[k], "1e-12")

\* d: a segment that was given by measures and some corners, s: the one meant
Close(x, y) == FFinite(x) /\ FNear(x, y, FAdd("1e-7", FMul("1e-7", FAbs(y))))
SameSegment(d, s, m) ==
    /\ d.outcome = "ok"
    /\ LET g == d.got[1] IN
       /\ \A p \in Points : VNear(g.p[p], s[p], FAdd("1e-7", FMul("1e-7", VNorm(s[p]))))
       /\ \A k \in Lengths : Close(g.m[k], m[k])
       /\ \A k \in Angles : SameAngle(g.m[k], m[k]) \/ Close(g.m[k], m[k])
       /\ Near(g.inner, "0.0") /\ Near(g.outer, "1.0")

Clauses(s, e) ==
    IF e.op = "failed" THEN {"NoError"} ELSE
    LET n == TLCEval(All(e.ac))
        shape == Len(e.got.wings) = Len(n.wings) /\ \A w \in DOMAIN n.wings : Len(e.got.wings[w].segs) = Len(n.wings[w].segs)
    IN Failing(<<
        <<"HarnessInStep", e.op # "start" => SameAc(e.ac, After(s.ac, e))>>,
        <<"Generated", shape>>,
        <<"ChordsAndSpans", shape => EachSeg(e, n, LAMBDA g, x : \A k \in Lengths \ {"area"} : Near(g.m[k], x.m[k]))>>,
        <<"SegmentAngles", shape => EachSeg(e, n, LAMBDA g, x : \A k \in Angles \ {"dihedral"} : SameAngle(g.m[k], x.m[k]))>>,
        <<"Dihedral", shape => EachSeg(e, n, LAMBDA g, x : SameAngle(g.m.dihedral, x.m.dihedral))>>,
        <<"SegmentAreas", shape => EachSeg(e, n, LAMBDA g, x : Near(g.m.area, x.m.area))>>,
        <<"PlaneSegmentAreas", shape => \A w \in DOMAIN e.ac : \A i \in DOMAIN e.ac[w].segs : Plane(e.ac[w].segs[i]) => Near(e.got.wings[w].segs[i].m.area, Polygon(e.ac[w].segs[i]))>>,
        <<"Positions", shape => EachSeg(e, n, LAMBDA g, x : Near(g.inner, x.inner) /\ Near(g.outer, x.outer))>>,
        <<"Corners", shape => \A w \in DOMAIN e.ac : \A i \in DOMAIN e.ac[w].segs : \A p \in Points : VNear(e.got.wings[w].segs[i].p[p], e.ac[w].segs[i][p], "0.0")>>,
        <<"WingSpans", shape => \A w \in DOMAIN n.wings : Near(e.got.wings[w].span, n.wings[w].span)>>,
        <<"WingAreas", shape => \A w \in DOMAIN n.wings : Near(e.got.wings[w].area, n.wings[w].area)>>,
        <<"AircraftArea", Near(e.got.area, n.area)>>,
        <<"AircraftSize", Near(e.got.size, n.size)>>,
        <<"ShiftedSize", (e.op = "shift" /\ \A w \in DOMAIN e.ac : e.ac[w].sym = "0") => Near(e.got.size, s.m.size)>>,
        <<"FromMeasuresAndCorners", shape => \A j \in DOMAIN e.desc : LET d == e.desc[j]  x == e.ac[d.w].segs[d.i] IN Describable(x) => SameSegment(d, x, Measure(x))>>,
        <<"ReadingChangesNothing", e.again = e.got>> >>)

Step(s, e) == IF e.op = "failed" THEN s ELSE [s EXCEPT !.ac = e.ac, !.m = e.got]
Detail(s, e) == IF e.op = "failed" THEN e ELSE [got |-> e.got, want |-> All(e.ac), op |-> e.op]

INSTANCE TraceRun
=============================================================================
