------------------------------- MODULE T_Tiling -------------------------------
(***************************************************************************)
(* Traces of requests on one wing segment: new(v, ss), then div and ctl    *)
(* with their outcome and the resulting strips; and the strips of segments *)
(* of whole aircraft after a run (model).                                  *)
(***************************************************************************)
EXTENDS TilingObs, TraceBase

VARIABLES tr, ln, st

Start(t) == [v |-> [a |-> VZero], ss |-> <<>>]

Tol == "1e-8"

\* the request's outcome in the specification
Want(s, e) ==
    CASE e.e = "div" -> [ok |-> Inside(e.x), ss |-> AddBorder(s.v, s.ss, e.x)]
      [] e.e = "ctl" -> AddControl(s.v, s.ss, e.c)

Clauses(s, e) ==
    CASE e.e \in {"new", "model"} -> Failing(TilingClauses(e.ss)
            \o << <<"NewSegmentIsOneStrip", e.e = "new" => SameStrips(AbsStrips(e.ss), Fresh, Tol)>> >>)
      [] e.e \in {"div", "ctl"} ->
            LET w == TLCEval(Want(s, e))
            IN Failing(TilingClauses(e.ss) \o <<
                <<"AcceptedWhenItFits", w.ok => e.outcome = "ok">>,
                <<"RefusedWhenItDoesNotFit", (~w.ok /\ ~e.ignore) => e.outcome = "refused">>,
                <<"StripsAfterRequest", w.ok => SameStrips(AbsStrips(e.ss), w.ss, Tol)>>,
                <<"RefusedDivisionChangesNothing", (e.e = "div" /\ ~w.ok) => SameStrips(AbsStrips(e.ss), s.ss, Tol)>>,
                <<"EarlierRequestsKept", Refines(s.ss, AbsStrips(e.ss))>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == IF e.e = "new" THEN [v |-> e.v, ss |-> AbsStrips(e.ss)] ELSE [s EXCEPT !.ss = AbsStrips(e.ss)]

Detail(s, e) == IF e.e \in {"div", "ctl"} THEN [got |-> AbsStrips(e.ss), want |-> Want(s, e)] ELSE [got |-> e]

INSTANCE TraceRun
=============================================================================
