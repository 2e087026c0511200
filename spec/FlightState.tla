----------------------------- MODULE FlightState -----------------------------
(***************************************************************************)
(* The flight state of PyTornado: from what the user gives (a dictionary   *)
(* of numbers, lists and nulls) to the sequence of flight points analysed. *)
(*                                                                         *)
(* An input maps each parameter to  [k |-> "absent"], [k |-> "null"],      *)
(* [k |-> "num", v |-> <<x>>]  or  [k |-> "list", v |-> <<x1, ..., xn>>].  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt, Atmosphere

SpeedParams == {"airspeed", "density", "altitude", "mach"}
AngleParams == {"alpha", "beta"}
RateParams  == {"rate_P", "rate_Q", "rate_R"}
AllParams   == SpeedParams \cup AngleParams \cup RateParams

ValidPairs  == { {"airspeed", "density"}, {"airspeed", "altitude"}, {"mach", "altitude"} }

Given(inp)  == { p \in AllParams : inp[p].k \in {"num", "list"} }
Lengths(inp) == { Len(inp[p].v) : p \in Given(inp) }
NPoints(inp) == CHOOSE n \in Lengths(inp) : TRUE

AngleOK(a) == FLe("-90.0", a) /\ FLe(a, "90.0")

Acceptable(inp) ==
    /\ (Given(inp) \cap SpeedParams) \in ValidPairs
    /\ Cardinality(Lengths(inp)) = 1
    /\ \A p \in AngleParams \cap Given(inp) : \A i \in DOMAIN inp[p].v : AngleOK(inp[p].v[i])
    /\ "altitude" \in Given(inp) => \A i \in DOMAIN inp["altitude"].v : InAtmosphere(inp["altitude"].v[i])

\* The i-th flight point of an acceptable input
PointDensity(inp, i)  == IF "density" \in Given(inp) THEN inp["density"].v[i]
                         ELSE Density(inp["altitude"].v[i])
PointAirspeed(inp, i) == IF "airspeed" \in Given(inp) THEN inp["airspeed"].v[i]
                         ELSE FMul(inp["mach"].v[i], SpeedOfSound(inp["altitude"].v[i]))
Point(inp, i) == [ p \in AngleParams \cup RateParams |-> inp[p].v[i] ]
                 @@ [density |-> PointDensity(inp, i), airspeed |-> PointAirspeed(inp, i)]

FreeStream(V, alpha, beta) ==
    LET a == FDeg2Rad(alpha)  b == FDeg2Rad(beta) IN
    << FMul(V, FMul(FCos(a), FCos(b))), FMul(V, FNeg(FSin(b))), FMul(V, FMul(FSin(a), FCos(b))) >>
=============================================================================
