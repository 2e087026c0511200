------------------------------- MODULE T_Files -------------------------------
(***************************************************************************)
(* Traces of runs of one project.  run(opts, n, clean, before, after):     *)
(* which files are there (ResultFiles!AfterRun) and that only the output   *)
(* folders and the log changed; then point(i) and map compare what the     *)
(* files hold with what the run returned and with a run of that point.     *)
(***************************************************************************)
EXTENDS ResultFiles, Flt, TraceBase

VARIABLES tr, ln, st

Empty == [ f \in {} |-> 0 ]
Start(t) == [k |-> t.k, base |-> t.base, r |-> 0, files |-> Empty, n |-> 0, opts |-> {}, res |-> Empty, aero |-> Empty]

Primary == {"airspeed", "alpha", "beta", "density", "rate_P", "rate_Q", "rate_R"}
Panel == <<"gamma", "vx", "vy", "vz", "vmag", "fx", "fy", "fz", "fmag", "cp">>
\* key of the result list -> entry of a point's global file
Forces == [x |-> "Fx", y |-> "Fy", z |-> "Fz", D |-> "FD", C |-> "FC", L |-> "FL", l |-> "Mx", m |-> "My", n |-> "Mz"]
Coeffs == [x |-> "Cx", y |-> "Cy", z |-> "Cz", D |-> "CD", C |-> "CC", L |-> "CL", l |-> "Cl", m |-> "Cm", n |-> "Cn"]

SameFun(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Under(path, dir) == Len(path) > Len(dir) /\ SubSeq(path, 1, Len(dir)) = dir
\* TLC compares strings; the recorder says where a file lies: e.where[path] \in {"out", "log", "in"}
Opts(e) == { e.opts[i] : i \in DOMAIN e.opts }
Names(s, fs) == { "_results/" \o Place(s.base, f) : f \in fs }

\* the printed number x stands for the value v (up to noise of size z)
Printed(x, v, z) == IF FFinite(v) THEN FNear(x, v, FAdd(FMul("5.1e-7", FAbs(v)), z)) ELSE x = v \/ ~FFinite(x)
ColMax(rows, j) == FMaxAbs([ i \in DOMAIN rows |-> rows[i][j] ])
SameTable(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i])
                   /\ LET z == TLCEval([ j \in DOMAIN b[1] |-> FMul("1e-9", ColMax(b, j)) ])
                      IN \A i \in DOMAIN a : \A j \in DOMAIN a[i] : Printed(a[i][j], b[i][j], z[j])

Clauses(s, e) ==
    CASE e.e = "run" ->
            LET fs == AfterRun(s.files, Opts(e), e.n, e.clean, s.r + 1)
                out == { p \in DOMAIN e.after : e.where[p] = "results" }
                mine == Names(s, Wanted(Opts(e), e.n))
            IN IF e.outcome # "ok" THEN {"RunWorks"} ELSE Failing(<<
                <<"FilesExactlyAsRequested", out = Names(s, DOMAIN fs)>>,
                <<"OlderFilesUntouched", \A p \in out \ mine : Has(e.before, p) /\ e.after[p] = e.before[p]>>,
                <<"NothingElseWritten", \A p \in DOMAIN e.after : e.where[p] = "other" => (Has(e.before, p) /\ e.after[p] = e.before[p])>>,
                <<"NothingElseRemoved", \A p \in DOMAIN e.before : e.where[p] = "other" => Has(e.after, p)>>,
                <<"NoPlotFiles", \A p \in DOMAIN e.after : e.where[p] # "plots">>,
                <<"ResultsIndependentOfOptions", SameFun(e.results, e.plain) /\ SameFun(e.last, e.lastplain)>>,
                <<"OneEntryPerPoint", \A k \in DOMAIN e.results : Len(e.results[k]) = e.n>> >>)
      [] e.e = "point" -> Failing(<<
            <<"GlobalForces", Has(e, "global") => \A k \in DOMAIN Forces :
                Has(e.global, "global_forces") /\ Has(e.global.global_forces, k) /\ e.global.global_forces[k] = s.res[Forces[k]][e.i + 1]>>,
            <<"GlobalCoeffs", Has(e, "global") => \A k \in DOMAIN Coeffs :
                Has(e.global, "global_coeffs") /\ Has(e.global.global_coeffs, k) /\ e.global.global_coeffs[k] = s.res[Coeffs[k]][e.i + 1]>>,
            <<"GlobalState", Has(e, "global") => Has(e.global, "aero") /\ \A k \in Primary :
                Has(e.global.aero, k) /\ e.global.aero[k] = s.aero[k][e.i + 1]>>,
            <<"GlobalRefs", Has(e, "global") => Has(e.global, "refs") /\ \A k \in DOMAIN Traces[s.k].refs :
                Has(e.global.refs, k) /\ e.global.refs[k] = Traces[s.k].refs[k]>>,
            <<"PanelwiseHeader", Has(e, "panel") => \A j \in DOMAIN Panel : \E i \in DOMAIN e.phead : e.phead[i] = Panel[j] /\
                Cardinality({ h \in 1..i : \E m \in DOMAIN Panel : e.phead[h] = Panel[m] }) = j>>,
            <<"PanelwiseValues", Has(e, "panel") => SameTable(e.panel, e.panelx)>>,
            <<"MatrixValues", Has(e, "matrix") => SameTable(e.matrix, e.matrixx)>>,
            <<"LastPointExactly", e.i = s.n - 1 =>
                /\ Has(e, "panel") => \A i \in DOMAIN e.panel : \A j \in DOMAIN Panel : Printed(e.panel[i][j], e.last[Panel[j]][i], "0.0")
                /\ Has(e, "matrix") => \A i \in DOMAIN e.matrix : \A j \in DOMAIN e.matrix[i] :
                      Printed(e.matrix[i][j], IF j <= Len(e.last.rhs) THEN e.last.A[i][j] ELSE e.last.rhs[i], "0.0")>> >>)
      [] e.e = "map" -> Failing(<<
            <<"MapResults", \A k \in DOMAIN s.res : Has(e.data, k) /\ e.data[k] = s.res[k]>>,
            <<"MapState", \A k \in DOMAIN s.aero : Has(e.data, k) /\ e.data[k] = s.aero[k]>>,
            <<"MapNothingElse", DOMAIN e.data \subseteq DOMAIN s.res \cup DOMAIN s.aero>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) ==
    CASE e.e = "run" -> [s EXCEPT !.files = AfterRun(s.files, Opts(e), e.n, e.clean, s.r + 1), !.r = @ + 1, !.n = e.n,
                                  !.opts = Opts(e), !.res = e.results, !.aero = e.aero]
      [] OTHER -> s
Detail(s, e) ==
    CASE e.e = "run" -> [e |-> e.e, opts |-> e.opts, n |-> e.n, clean |-> e.clean, outcome |-> e.outcome,
                         found |-> DOMAIN e.after, expected |-> Names(s, DOMAIN AfterRun(s.files, Opts(e), e.n, e.clean, s.r + 1))]
      [] OTHER -> [e |-> e.e]

INSTANCE TraceRun
=============================================================================
