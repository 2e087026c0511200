-------------------------------- MODULE T_Cpacs -------------------------------
(***************************************************************************)
(* Traces of editing a CPACS file, importing it after each change, and     *)
(* running or exporting it.                                                *)
(***************************************************************************)
EXTENDS TraceBase, Cpacs

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, doc |-> [none |-> TRUE], res |-> [ u \in {} |-> {} ]]

Tol == "1e-9"
Near(x, y) == FNear(x, y, Tol)
NearList(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Near(x[i], y[i])
SameSeg(o, s) == /\ o.uid = s.uid /\ o.fi = s.fi /\ o.fo = s.fo
                 /\ NearList(o.a, s.a) /\ NearList(o.b, s.b) /\ NearList(o.c, s.c) /\ NearList(o.d, s.d)
SameCtl(doc, w, o, k) == LET v == Deflected(doc, w, k) IN
    /\ o.u = k.u /\ o.type = k.type /\ o.si = k.si /\ o.so = k.so
    /\ Near(o.eta_inner, k.eta_inner) /\ Near(o.eta_outer, k.eta_outer) /\ Near(o.xsi_inner, k.xsi_inner) /\ Near(o.xsi_outer, k.xsi_outer)
    /\ Near(o.h_xsi_inner, k.h_xsi_inner) /\ Near(o.h_xsi_outer, k.h_xsi_outer)
Names(doc, m) == m.uid = Clean(doc.uid) /\ Len(m.wings) = Len(doc.wings)
                 /\ \A w \in DOMAIN doc.wings : m.wings[w].uid = WingUid(doc, w) /\ FEq(m.wings[w].sym, doc.wings[w].sym)
SegsOk(doc, m) == \A w \in DOMAIN doc.wings : /\ Len(m.wings[w].segs) = Len(doc.wings[w].segs)
                     /\ \A i \in DOMAIN doc.wings[w].segs : SameSeg(m.wings[w].segs[i], Segment(doc.wings[w].segs[i]))
CtlsOk(doc, m) == \A w \in DOMAIN doc.wings : LET c == TLCEval(Ctls(doc.wings[w])) IN
                     /\ Len(m.wings[w].ctls) = Len(c)
                     /\ \A i \in DOMAIN c : SameCtl(doc, doc.wings[w], m.wings[w].ctls[i], c[i])
DeflOk(doc, m) == \A w \in DOMAIN doc.wings : \A i \in DOMAIN m.wings[w].ctls :
                     LET o == m.wings[w].ctls[i]  v == Deflected(doc, doc.wings[w], [u |-> o.u]) IN
                     FEq(o.defl, v.deflection) /\ (v.mirror # "" => FEq(o.deflm, v.mirror))
RefsOk(doc, m) == /\ FEq(m.refs.area, doc.refs.area) /\ FEq(m.refs.span, doc.refs.length) /\ FEq(m.refs.chord, doc.refs.length)
                  /\ NearList(m.refs.gcenter, doc.refs.p) /\ NearList(m.refs.rcenter, doc.refs.p)
EqList(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : FEq(x[i], y[i])
PointsOk(doc, p) == LET q == Points(doc) IN EqList(p.alt, q.alt) /\ EqList(p.mach, q.mach) /\ EqList(p.aoa, q.aoa) /\ EqList(p.aos, q.aos)
    /\ \A r \in {p.P, p.Q, p.R} : Len(r) = Len(q.alt) /\ \A i \in DOMAIN r : FEq(r[i], "0.0")
\* airfoil files hold the points of the profiles (seven decimals)
FoilsOk(s, e) == LET f == Traces[s.k].profiles IN
    /\ DOMAIN e.foils = { "blade." \o Clean(f[i].name) : i \in DOMAIN f }
    /\ \A i \in DOMAIN f : LET g == e.foils["blade." \o Clean(f[i].name)] IN
         Len(g) = Len(f[i].points) /\ \A j \in DOMAIN g : FNear(g[j][1], f[i].points[j][1], "1e-7") /\ FNear(g[j][2], f[i].points[j][2], "1e-7")
Keys == {"cl", "cd", "cs", "cmd", "cms", "cml"}
\* written with six digits
Six(x, y) == FNear(x, y, FAdd(FMul("5.1e-6", FAbs(y)), "1e-300"))
Written(e, u) == \A k \in Keys : Len(e.after[u][k]) = Len(e.coeffs) /\ \A i \in DOMAIN e.coeffs : Six(e.after[u][k][i], e.coeffs[i][k])

Clauses(s, e) ==
    IF e.op = "failed" THEN {"NoError"} ELSE
    LET doc == e.doc
        all == [ w \in DOMAIN doc.wings |-> [ctls |-> Ctls(doc.wings[w])] ]
        aok == TLCEval(AircraftOk(doc, all))  sok == TLCEval(StateOk(doc))
    IN Failing(<<
        <<"HarnessInStep", e.op # "start" => e.doc = After(s.doc, e)>>,
        <<"AircraftImported", aok => e.aircraft = "ok">>,
        <<"AircraftRefused", ~aok => e.aircraft # "ok">>,
        <<"WingsAndSymmetry", (aok /\ e.aircraft = "ok") => Names(doc, e.model[1])>>,
        <<"SegmentsAndAirfoils", (aok /\ e.aircraft = "ok") => SegsOk(doc, e.model[1])>>,
        <<"Controls", (aok /\ e.aircraft = "ok") => CtlsOk(doc, e.model[1])>>,
        <<"Deflections", (aok /\ e.aircraft = "ok") => DeflOk(doc, e.model[1])>>,
        <<"References", (aok /\ e.aircraft = "ok") => RefsOk(doc, e.model[1])>>,
        <<"AirfoilFiles", (aok /\ e.aircraft = "ok") => FoilsOk(s, e)>>,
        <<"StateImported", sok => e.state = "ok">>,
        <<"StateRefused", ~sok => e.state # "ok">>,
        <<"FlightPoints", (sok /\ e.state = "ok") => PointsOk(doc, e.points)>>,
        <<"Runs", e.op = "run" => (e.ran = "ok") = (aok /\ sok)>>,
        <<"OnePointEach", (e.op = "run" /\ e.ran = "ok" /\ sok) => Len(e.coeffs) = Len(Points(doc).alt)>>,
        <<"ResultsWritten", (e.op = "run" /\ e.ran = "ok" /\ sok) => Written(e, doc.maps[Chosen(doc)].uid)>>,
        <<"RunsWithOtherState", e.op = "native" => (e.ran = "ok") = aok /\ (aok => Len(e.coeffs) = 2)>>,
        <<"OtherMapsKept", \A u \in DOMAIN e.after : (e.op # "run" \/ e.ran # "ok" \/ Chosen(doc) = 0 \/ u # doc.maps[Chosen(doc)].uid) => e.after[u] = e.before[u]>>,
        <<"NothingElseChanged", e.rest /\ DOMAIN e.after = DOMAIN e.before>>,
        <<"Exported", e.op = "export" => (e.exported = "ok") = aok>>,
        <<"ExportedModel", (e.op = "export" /\ e.exported = "ok" /\ e.aircraft = "ok") => e.exportedmodel = e.model>> >>)

Step(s, e) == IF e.op = "failed" THEN s ELSE [s EXCEPT !.doc = e.doc]
Detail(s, e) == [ x \in DOMAIN e \ {"foils", "doc", "before"} |-> e[x] ]

INSTANCE TraceRun
=============================================================================
