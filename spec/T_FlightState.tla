----------------------------- MODULE T_FlightState -----------------------------
(***************************************************************************)
(* Traces of the real FlightState: update(inp, outcome), then one point    *)
(* event per iterated flight point, then end(n).                           *)
(***************************************************************************)
EXTENDS FlightState, TraceBase

VARIABLES tr, ln, st

Start(t) == [phase |-> "new", inp |-> <<>>, n |-> 0]

RelTol == "1e-6"
Close(a, b) == FNear(a, b, FAdd("1e-12", FMul(RelTol, FAbs(b))))
Same(a, b)  == FEq(a, b)

PointClauses(s, e) ==
    LET i == s.n + 1  pt == Point(s.inp, i)
        given == Given(s.inp)
    IN Failing(<<
        <<"PointsNotMoreThanGiven", i <= NPoints(s.inp)>>,
        <<"AnglesAndRatesUnchanged", \A p \in AngleParams \cup RateParams : Same(e.pt[p], pt[p])>>,
        <<"DensityGivenUnchanged", "density" \in given => Same(e.pt.density, pt.density)>>,
        <<"AirspeedGivenUnchanged", "airspeed" \in given => Same(e.pt.airspeed, pt.airspeed)>>,
        <<"DensityFromAtmosphere", "density" \notin given => Close(e.pt.density, pt.density)>>,
        <<"AirspeedFromMach", "airspeed" \notin given => Close(e.pt.airspeed, pt.airspeed)>>,
        <<"FreeStreamVector",
          VNear(e.fsv, FreeStream(pt.airspeed, pt.alpha, pt.beta), FAdd("1e-12", FMul(RelTol, pt.airspeed)))>>
       >>)

Clauses(s, e) ==
    CASE e.e = "update" -> Failing(<<
            <<"StrangeOutcome", e.outcome \in {"accepted", "refused"}>>,
            <<"AcceptedAsDocumented", Acceptable(e.inp) => e.outcome = "accepted">>,
            <<"RefusedAsDocumented", ~Acceptable(e.inp) => e.outcome # "accepted">> >>)
      [] e.e = "point" -> IF s.n + 1 > NPoints(s.inp) THEN {"PointsNotMoreThanGiven"} ELSE PointClauses(s, e)
      [] e.e = "end" -> Failing(<<
            <<"AllPointsVisited", s.phase = "accepted" => s.n = NPoints(s.inp)>> >>)

Step(s, e) ==
    CASE e.e = "update" -> [phase |-> e.outcome, inp |-> e.inp, n |-> 0]
      [] e.e = "point" -> [s EXCEPT !.n = @ + 1]
      [] OTHER -> s

Detail(s, e) == IF e.e = "point" /\ s.n + 1 <= NPoints(s.inp)
                THEN [got |-> e, want |-> Point(s.inp, s.n + 1)]
                ELSE [got |-> e]

INSTANCE TraceRun
=============================================================================
