------------------------------- MODULE T_Loads -------------------------------
(***************************************************************************)
(* Traces of the loads of the last flight point: one panel event per panel *)
(* (velocity, force, cp), then the totals and coefficients.                *)
(***************************************************************************)
EXTENDS Vlm, TraceBase

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k, i |-> 0, f |-> VZero, m |-> VZero, fa |-> "0.0", ma |-> "0.0"]

Mid(v) == VMid(v[2], v[3])

PanelClauses(t, e) ==
    LET v == t.v[e.i]
        mid == Mid(v)
        \* on large lattices the velocity is computed for some panels only
        vind == TLCEval(IF e.full THEN Induced(mid, t.v, t.gamma, t.eps) ELSE e.vel)
        cg == t.refs.gcenter
        scale == FAdd(FAdd(FAdd("1e-6", t.pt.airspeed), VNorm(RotVelocity(t.pt, cg, mid))), VNorm(vind))
        f == TLCEval(PanelForce(t.pt, cg, v, mid, t.gamma[e.i], vind))
        ftol == FAdd("1e-12", FMul("1e-7", FMul(FMul(t.pt.density, FAbs(t.gamma[e.i])), FMul(scale, VNorm(VSub(v[3], v[2]))))))
        q == DynPressure(t.pt)
    IN Failing(<<
        <<"InducedVelocity", VNear(e.vel, vind, FMul("1e-7", scale)) /\ FNear(e.vmag, VNorm(vind), FMul("2e-7", scale))>>,
        <<"KuttaJoukowski", VNear(e.f, f, ftol)>>,
        <<"ForceMagnitude", FNear(e.fmag, VNorm(e.f), FAdd("1e-12", FMul("1e-9", VNorm(e.f))))>>,
        <<"Circulation", FEq(e.gamma, t.gamma[e.i])>>,
        <<"PressureCoefficient", FNear(FMul(FMul(e.cp, q), e.area), FDot(e.f, e.n), FAdd("1e-12", FMul("1e-9", VNorm(e.f))))>> >>)

Axes == {"x", "y", "z", "D", "C", "L"}
TotalClauses(s, e) ==
    LET t == T(s)
        tot == TLCEval(Totals(t.pt, s.f, s.m))
        cof == TLCEval(Coefficients(t.pt, t.refs, e.forces))
        tol(k) == FAdd("1e-12", FMul("1e-9", IF k \in Axes THEN s.fa ELSE s.ma))
        near(k) == FNear(e.forces[k], tot[k], tol(k))
    IN Failing(<<
        <<"EveryPanelCounted", s.i = Len(t.v) /\ e.n = s.i>>,
        <<"TotalForceIsSum", \A k \in {"x", "y", "z"} : near(k)>>,
        <<"TotalMomentIsSumOfMoments", \A k \in {"l", "m", "n"} : near(k)>>,
        <<"WindAxes", \A k \in {"D", "C", "L"} : near(k)>>,
        <<"Coefficients", \A k \in DOMAIN cof : FNear(e.coeffs[k], cof[k], FAdd("1e-14", FMul("1e-9", FAbs(cof[k]))))>> >>)

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", e.outcome = "ok">> >>)
      [] e.e = "panel" -> PanelClauses(T(s), e)
      [] e.e = "total" -> TotalClauses(s, e)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) ==
    IF e.e # "panel" THEN s
    ELSE LET t == T(s)
             m == PanelMoment(t.refs.rcenter, Mid(t.v[e.i]), e.f)
         IN TLCEval([s EXCEPT !.i = @ + 1, !.f = VAdd(@, e.f), !.m = VAdd(@, m),
                              !.fa = FAdd(@, VNorm(e.f)), !.ma = FAdd(@, VNorm(m))])

Detail(s, e) == IF e.e = "panel" THEN [got |-> e, ind |-> Induced(Mid(T(s).v[e.i]), T(s).v, T(s).gamma, T(s).eps)]
                ELSE [got |-> e, sum |-> s]

INSTANCE TraceRun
=============================================================================
