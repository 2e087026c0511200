------------------------------ MODULE T_Normals ------------------------------
(***************************************************************************)
(* Traces of runs with deflections and cambered airfoils: the normals of   *)
(* every patch.  The trace carries ac, the outcome, rot (whether normals   *)
(* are rotated) and para (airfoil file -> k of its parabolic camber line). *)
(* A patch event has cam: per panel its chordwise position and the camber  *)
(* slopes of the inner and outer airfoil there.  fields are those of the   *)
(* deformation file (an empty function without).                           *)
(***************************************************************************)
EXTENDS Normals, Moved, TraceBase

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k, ws |-> <<>>]

\* hinge ends of the control patch of event e, from the declaration
Hinge(s, e) ==
    LET w == WingOf(T(s).ac, e.w)
        wi == CHOOSE i \in DOMAIN T(s).ac.wings : T(s).ac.wings[i].uid = e.w
        si == CHOOSE i \in DOMAIN w.segs : w.segs[i].uid = e.s
        here == SelectSeq(s.ws[wi][si], LAMBDA x : FNear(x.ea, e.ea, "1e-9") /\ FNear(x.eb, e.eb, "1e-9"))
    IN IF here = <<>> \/ here[1][e.type].u # e.u THEN [h1 |-> "NaN", h2 |-> "NaN"] ELSE here[1][e.type]

Foil(s, name, x, slope) == IF name \in DOMAIN T(s).para THEN ParabolaSlope(T(s).para[name], x) ELSE slope

Field(s, e) == FieldOf(T(s).fields, e.w, e.mirror)
IsMoved(s, e) == Field(s, e) # <<>>
Strip(s, e) == LET w == WingOf(T(s).ac, e.w) IN MovedStrip(SegOf(w, e.s), e.ea, e.eb, w.sym, e.mirror, Field(s, e))
Quad(s, e) ==
    LET w == WingOf(T(s).ac, e.w)
        q == PatchQuad(SegOf(w, e.s), e.ea, e.eb, e.xsi)
    IN IF IsMoved(s, e) THEN PatchOn(TLCEval(Strip(s, e)), e.xsi, w.sym, e.mirror)
       ELSE IF e.mirror THEN MirrorQuad(w.sym, q) ELSE q

WantNormals(s, e, q) ==
    LET w == WingOf(T(s).ac, e.w)
        sg == SegOf(w, e.s)
        h == IF e.u = "" THEN None ELSE TLCEval(Hinge(s, e))
        axis == TLCEval(IF IsMoved(s, e) THEN HingeOn(Strip(s, e), h.h1, h.h2, w.sym, e.mirror)
                        ELSE HingeAxis(w.sym, e.mirror, sg, e.ea, e.eb, h.h1, h.h2))
        defl == Deflection(CtlOf(w, e.u), e.mirror)
        bend == TLCEval(CamberAxis(q, w.sym, e.mirror))
        geo(k) == PanelNormal(Cell(q, k, e.n))
        turned(k) == IF e.u = "" THEN geo(k) ELSE TurnDeg(geo(k), axis, defl)
        xsi(k) == CollocationXsi(e.xsi, k, e.n)
        slope(k) == StripSlope(Foil(s, sg.fi, xsi(k), e.cam[k][2]), Foil(s, sg.fo, xsi(k), e.cam[k][3]), e.ea, e.eb)
    IN [ k \in 1..e.n |-> IF T(s).rot THEN TurnSlope(turned(k), bend, slope(k)) ELSE geo(k) ]

PatchClauses(s, e) ==
    LET q == TLCEval(Quad(s, e))
        w == WingOf(T(s).ac, e.w)
        want == TLCEval(WantNormals(s, e, q))
        cell == TLCEval([ k \in 1..e.n |-> Cell(q, k, e.n) ])
        ok(k) == VNear(e.nv[k], want[k], "2e-4")
        unit(k) == FNear(VNorm(e.nv[k]), "1.0", "1e-9")
        panels(k) == \A i \in 1..4 : VNear(e.p[k][i], cell[k][i], "1e-9")
        all(P(_)) == \A k \in 1..e.n : P(k)
    IN Failing(<<
        <<"AllPanelsOfPatch", Len(e.nv) = e.n /\ Len(e.p) = e.n>>,
        <<"ImageOnlyIfSymmetric", e.mirror => w.sym # 0>>,
        <<"ChordwisePositions", \A k \in 1..e.n : FNear(e.cam[k][1], CollocationXsi(e.xsi, k, e.n), "1e-9")>>,
        <<"UnitNormals", all(unit)>>,
        <<"NormalsTurnedByDeflectionAndCamber", all(ok)>>,
        <<"GeometryNotDeflected", all(panels)>>,
        <<"CollocationPointsNotDeflected", \A k \in 1..e.n : VNear(e.c[k], Collocation(cell[k]), "1e-9")>> >>)

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", AllFit(T(s).ac) => e.outcome = "ok">> >>)
      [] e.e = "patch" -> PatchClauses(s, e)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == IF e.e # "run" THEN s
    ELSE LET ws == T(s).ac.wings
         IN TLCEval([s EXCEPT !.ws = [ i \in DOMAIN ws |->
              WingStrips(ws[i], [ j \in DOMAIN ws[i].segs |-> ws[i].segs[j].num_s ]).wss ]])

Detail(s, e) == IF e.e # "patch" THEN e
                ELSE [w |-> e.w, s |-> e.s, u |-> e.u, mirror |-> e.mirror, want |-> WantNormals(s, e, Quad(s, e)), got |-> e.nv]

INSTANCE TraceRun
=============================================================================
