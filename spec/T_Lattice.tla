------------------------------ MODULE T_Lattice ------------------------------
(***************************************************************************)
(* Traces of runs without normal rotations: the lattice.  The trace        *)
(* carries the definition ac, the last flight point pt and the outcome;    *)
(* one patch event per bookkeeping entry with the panels' data; then the   *)
(* statistics.                                                             *)
(***************************************************************************)
EXTENDS LatticeObs

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k, n |-> 0, amin |-> "Infinity", amax |-> "0.0", asum |-> "0.0",
             smin |-> "Infinity", smax |-> "0.0", ssum |-> "0.0"]

Quad(s, e) ==
    LET w == WingOf(T(s).ac, e.w)
        q == PatchQuad(SegOf(w, e.s), e.ea, e.eb, e.xsi)
    IN IF e.mirror THEN MirrorQuad(w.sym, q) ELSE q

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", AllFit(T(s).ac) => e.outcome = "ok">> >>)
      [] e.e = "patch" -> PatchFailures(TLCEval(Quad(s, e)), TLCEval(WindDir(T(s).pt)), e)
      [] e.e = "info" -> LET N == ToString(s.n) IN Failing(<<
            <<"AllPanelsCovered", e.num = s.n>>,
            <<"AreaStatistics", Near(e.info.area_min, s.amin) /\ Near(e.info.area_max, s.amax)
                                /\ Near(e.info.area_avg, FDiv(s.asum, N))>>,
            <<"AspectStatistics", Near(e.info.aspect_min, s.smin) /\ Near(e.info.aspect_max, s.smax)
                                  /\ Near(e.info.aspect_avg, FDiv(s.ssum, N))>> >>)
      [] OTHER -> {"UnknownEvent"}

Add(s, p) ==
    LET a == TLCEval(Area(p))  r == TLCEval(Aspect(p))
    IN TLCEval([s EXCEPT !.n = @ + 1, !.amin = FMin(@, a), !.amax = FMax(@, a), !.asum = FAdd(@, a),
                         !.smin = FMin(@, r), !.smax = FMax(@, r), !.ssum = FAdd(@, r)])

Step(s, e) == IF e.e = "patch" THEN LET q == TLCEval(Quad(s, e)) IN FoldLeft(Add, s, [ k \in 1..e.n |-> Cell(q, k, e.n) ]) ELSE s

Detail(s, e) == IF e.e = "patch" THEN [w |-> e.w, s |-> e.s, mirror |-> e.mirror, quad |-> Quad(s, e), n |-> e.n,
                                       got |-> [p |-> e.p, nv |-> e.nv]] ELSE [got |-> e, st |-> s]

INSTANCE TraceRun
=============================================================================
