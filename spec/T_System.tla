------------------------------- MODULE T_System -------------------------------
(***************************************************************************)
(* Traces of the linear system of the last flight point: the trace carries *)
(* refs, pt, eps, the horseshoes v and circulations gamma; one row event   *)
(* per panel with its collocation point c, normal n, matrix row a and      *)
(* right-hand side b; then end.  (Of large systems only some rows.)        *)
(***************************************************************************)
EXTENDS Vlm, TraceBase

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k, i |-> 0]

Size == "50.0"
RowClauses(t, e) ==
    LET row == TLCEval(MatrixRow(e.c, e.n, t.v, t.eps))
        big == FMaxAbs(row)
        rhs == RightSide(t.pt, t.refs.gcenter, e.c, e.n)
        dir == WindDir(t.pt)
        \* the largest normal velocity the onset flow could have here
        scale == FAdd(FAdd("1e-6", t.pt.airspeed), VNorm(RotVelocity(t.pt, t.refs.gcenter, e.c)))
        terms == [ j \in DOMAIN row |-> FMul(row[j], t.gamma[j]) ]
        mag == FAdd(scale, FSum([ j \in DOMAIN terms |-> FAbs(terms[j]) ]))
        v == t.v[e.i]
    IN Failing(<<
        <<"MatrixIsBiotSavart", Len(e.a) = Len(row) /\ \A j \in DOMAIN row : FNear(e.a[j], row[j], FMul("1e-7", big))>>,
        <<"RightSideIsOnsetFlow", FNear(e.b, rhs, FMul("1e-9", scale))>>,
        <<"FlowTangency", FNear(FSum(terms), rhs, FMul("1e-7", mag))>>,
        <<"LegsFollowFreeStream", Trails(dir, v[2], v[1], Size) /\ Trails(dir, v[3], v[4], Size)>> >>)

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", e.outcome = "ok">> >>)
      [] e.e = "row" -> RowClauses(T(s), e)
      [] e.e = "end" -> Failing(<< <<"OneEquationPerPanel", s.i = e.rows /\ Len(T(s).gamma) = Len(T(s).v) /\ e.n = Len(T(s).v)>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == IF e.e = "row" THEN [s EXCEPT !.i = @ + 1] ELSE s

Detail(s, e) == IF e.e = "row" THEN [row |-> e.i, got |-> e.a, want |-> MatrixRow(e.c, e.n, T(s).v, T(s).eps),
                                     b |-> e.b, wantb |-> RightSide(T(s).pt, T(s).refs.gcenter, e.c, e.n)] ELSE e

INSTANCE TraceRun
=============================================================================
