-------------------------------- MODULE T_Plots -------------------------------
(***************************************************************************)
(* Traces of runs with plots.  The other fields of a trace describe the    *)
(* aircraft: ac, uid, info (numbers of wings, segments, controls), size,   *)
(* gcenter, deformed, field (points of the deformation), points (for each  *)
(* number of points the air speed and flows: the angles of the last one), base (name of run).    *)
(***************************************************************************)
EXTENDS TraceBase, Plots

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, files |-> <<>>]

Folder(s, i) == Traces[s.k].base \o "_00" \o ToString(i - 1)
SameFiles(s, e, want) ==
    /\ \A d \in DOMAIN e.files : \E i \in DOMAIN want : d = Folder(s, i)
    /\ \A i \in DOMAIN want : LET have == IF Folder(s, i) \in DOMAIN e.files THEN e.files[Folder(s, i)] ELSE NoFiles IN
         \A n \in DOMAIN have \cup DOMAIN want[i] : At(have, n) = At(want[i], n)
SameWindows(e) ==
    LET w == WindowsOf(e.c)  Only(P(_)) == Cardinality({ i \in DOMAIN e.windows : P(e.windows[i]) }) IN
    /\ \A i \in DOMAIN e.windows : e.windows[i].dims \in { <<"image">>, <<"2D", "3D">> }
    /\ Only(LAMBDA x : x.dims = <<"image">>) = e.n * w.downwash
    /\ Only(LAMBDA x : x.dims = <<"2D", "3D">> /\ x.key = "") = e.n * w.views
    /\ \A k \in { e.windows[i].key : i \in DOMAIN e.windows } \cup Range(w.results) : k # "" => Only(LAMBDA x : x.key = k) = e.n * Count(w.results, k)

Plain(p) == [ k \in DOMAIN p |-> FAdd(p[k], "0.0") ]
SetOf(pairs) == { { Plain(p) : p \in Range(pairs[i]) } : i \in DOMAIN pairs }
Ends(lines) == UNION lines
\* points drawn: lines in all views are those of the aircraft; more: points that may be joined by further lines
ViewOk(view, v, lines, more) ==
    LET want == IF v = "xyz" THEN lines ELSE Seen(lines, v)
        have == SetOf(view.pieces)
        extra == IF v = "xyz" THEN more ELSE { << p[Views2[v][1]], p[Views2[v][2]] >> : p \in more }
    IN  /\ want \subseteq have
        /\ \A l \in have \ want : l \subseteq extra
        /\ extra \subseteq { Plain(p) : p \in Range(view.ends) }
InLimits(view, v, lines) ==
    \A p \in Ends(IF v = "xyz" THEN lines ELSE Seen(lines, v)) : \A k \in DOMAIN p :
        FLe(FMin(view.limits[k][1], view.limits[k][2]), p[k]) /\ FLe(p[k], FMax(view.limits[k][1], view.limits[k][2]))
Width(l) == FAbs(FSub(l[2], l[1]))
OneScale(view) == \A k \in DOMAIN view.limits : FNear(Width(view.limits[k]), Width(view.limits[1]), FMul("1e-6", Width(view.limits[1])))

FigOk(f, lines, more) == \A v \in DOMAIN f.views : ViewOk(f.views[v], v, lines, more)
Complete(f) == f.dim = "image" \/ (f.dim = "3D" /\ DOMAIN f.views = {"xyz"}) \/ (f.dim = "2D" /\ DOMAIN f.views = {"yz", "xz", "xy"})
Visible(t, f) == \A v \in DOMAIN f.views : InLimits(f.views[v], v, WingLines(t.ac)) /\ OneScale(f.views[v])
AxesOf(v) == IF v = "xyz" THEN <<1, 2, 3>> ELSE Views2[v]
Marked(t, f) == \A v \in DOMAIN f.views : LET c == Canon(t.gcenter) IN [ j \in DOMAIN AxesOf(v) |-> c[AxesOf(v)[j]] ] \in { Plain(p) : p \in Range(f.views[v].marks) }
Informed(t, f) == f.dim = "3D" => \E i \in DOMAIN f.texts : f.texts[i].what = "info" /\ f.texts[i].n = t.info /\ FNear(f.texts[i].v, t.size, "0.00501")
Titled(t, f) == f.dim \in {"2D", "3D"} => f.title = t.uid

IsGeometry(f) == f.name \in { "geometry" \o v : v \in Views }
IsLattice(f) == f.name \in { "lattice" \o v : v \in Views }
IsResults(f, k) == f.name \in { "results_" \o k \o v : v \in Views }
\* colours: 256 shades from the smallest to the largest value
Shade(x, lo, hi) == IF FEq(lo, hi) THEN "0.0" ELSE FMul("256.0", FDiv(FSub(x, lo), FSub(hi, lo)))
ShadeOk(n, x, lo, hi) == LET s == Shade(x, lo, hi) IN (FLe(FSub(ToString(n), "1e-6"), s) /\ FLe(s, FAdd(ToString(n + 1), "1e-6"))) \/ (n = 255 /\ FLe("255.0", s))
Lo(d) == CHOOSE x \in Range(d) : \A y \in Range(d) : FLe(x, y)
Hi(d) == CHOOSE x \in Range(d) : \A y \in Range(d) : FLe(y, x)
Small == "1e-9"
Inside(fill, panel, v) == \A j \in DOMAIN AxesOf(v) : LET k == AxesOf(v)[j]  C == { panel[i][k] : i \in 1..4 } IN
    /\ (\E x \in C : FLe(x, FAdd(fill.lo[j], Small)))
    /\ (\E x \in C : FLe(fill.hi[j], FAdd(x, Small)))
ResultOk(e, f, k) ==
    LET d == e.data[k]  lo == TLCEval(Lo(d))  hi == TLCEval(Hi(d)) IN
    /\ f.dim = "3D" => /\ Len(f.bar) = 1 /\ f.bar[1].label = k
                       /\ FEq(lo, hi) \/ (FNear(f.bar[1].lo, lo, FMul("1e-6", FSub(hi, lo))) /\ FNear(f.bar[1].hi, hi, FMul("1e-6", FSub(hi, lo))))
    /\ \A v \in DOMAIN f.views : LET F == f.views[v].fills IN
            /\ \A j \in DOMAIN F : \E i \in DOMAIN e.panels : Inside(F[j], e.panels[i], v) /\ ShadeOk(F[j].shade, d[i], lo, hi)
            /\ \A i \in DOMAIN e.panels : \E j \in DOMAIN F : Inside(F[j], e.panels[i], v) /\ ShadeOk(F[j].shade, d[i], lo, hi)
SpeedOk(t, e, f) == f.dim = "3D" => \E i \in DOMAIN f.texts : f.texts[i].what = "speed" /\ FNear(f.texts[i].v, t.speeds[e.n], "0.0501")

\* the arrow of the free stream: V*(cos a cos b, -sin b, sin a cos b)
Flow(t, n) == LET a == FDeg2Rad(t.flows[n][1])  b == FDeg2Rad(t.flows[n][2]) IN << FMul(FCos(a), FCos(b)), FNeg(FSin(b)), FMul(FSin(a), FCos(b)) >>
FlowOk(t, e, f) == f.dim = "3D" => \E i \in DOMAIN f.arrows : LET v == VUnit(f.arrows[i])  u == Flow(t, e.n) IN \A k \in 1..3 : FNear(v[k], u[k], "1e-6")

EachFig(e, P(_)) == \A i \in DOMAIN e.figs : P(e.figs[i])
Clauses(s, e) ==
    LET t == Traces[s.k] IN
    IF e.op = "failed" THEN {"NoError"}
    ELSE IF e.op = "clean" THEN Failing(<< <<"CleanRemovesPlots", DOMAIN e.files = {}>> >>)
    ELSE Failing(<<
        <<"Runs", e.outcome = "ok">>,
        <<"FilesAsRequested", SameFiles(s, e, AfterRun(s.files, e.c, e.n))>>,
        <<"FilesAreImages", e.valid>>,
        <<"EarlierFilesKept", e.kept>>,
        <<"WindowsAsRequested", SameWindows(e)>>,
        <<"NothingLeftOpen", e.open = 0>>,
        <<"ResultsUnchanged", e.outcome = "ok" => e.same>>,
        <<"SettingsUnchanged", e.settings>>,
        <<"AllViews", EachFig(e, Complete)>>,
        <<"WholeAircraftInView", EachFig(e, LAMBDA f : Visible(t, f))>>,
        <<"Titles", EachFig(e, LAMBDA f : Titled(t, f))>>,
        <<"Information", EachFig(e, LAMBDA f : Informed(t, f))>>,
        <<"CentreOfGravity", EachFig(e, LAMBDA f : (IsGeometry(f) \/ IsLattice(f)) => Marked(t, f))>>,
        <<"GeometryDrawn", LET L == TLCEval(WingLines(t.ac) \cup CtlLines(t.ac)) IN EachFig(e, LAMBDA f : IsGeometry(f) => FigOk(f, L, {}))>>,
        <<"LatticeDrawn", LET L == TLCEval(Panels(e.panels) \cup (IF t.deformed THEN {} ELSE CtlLines(t.ac)))
                              M == IF Count(e.c.lattice.opt, "deformation") > 0 THEN { Canon(t.field[i]) : i \in DOMAIN t.field } ELSE {}
                          IN EachFig(e, LAMBDA f : IsLattice(f) => FigOk(f, L, M))>>,
        <<"ResultsDrawn", EachFig(e, LAMBDA f : \A k \in Range(Keys(e.c)) : IsResults(f, k) => ResultOk(e, f, k) /\ SpeedOk(t, e, f) /\ FlowOk(t, e, f))>>,
        <<"MatrixDrawn", EachFig(e, LAMBDA f : f.name = "downwash" => f.image = e.matrix)>> >>)

Step(s, e) == IF e.op = "failed" THEN s ELSE IF e.op = "clean" THEN [s EXCEPT !.files = <<>>] ELSE [s EXCEPT !.files = AfterRun(s.files, e.c, e.n)]
Detail(s, e) == IF e.op # "run" THEN e ELSE [outcome |-> e.outcome, c |-> e.c, n |-> e.n, files |-> e.files, windows |-> e.windows, open |-> e.open]

INSTANCE TraceRun
=============================================================================
