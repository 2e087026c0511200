------------------------------- MODULE T_Laws -------------------------------
(***************************************************************************)
(* Traces of several analyses that are related by a law.  The trace has    *)
(* law (its name) and by (its parameter); every event is one analysis.     *)
(***************************************************************************)
EXTENDS Laws, TraceBase

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k, runs |-> <<>>]

Given(l, r, by) ==
    CASE l = "density" -> DensityPremise(r[1], r[2], by)
      [] l = "speed" -> SpeedPremise(r[1], r[2], by)
      [] l = "shift" -> ShiftPremise(r[1], r[2], by)
      [] l = "size" -> SizePremise(r[1], r[2], by)
      [] l = "order" -> OrderPremise(r[1], r[2], by)
      [] l = "add" -> AddPremise(r[1], r[2], r[3])
      [] l = "zero" -> ZeroPremise(r[1])
      [] l = "turn" -> TurnPremise(r[1], r[2], by)
      [] l = "mirror" -> MirrorPremise(r[1], r[2])
      [] l = "symmetric" -> SymmetricPremise(r[1])
      [] l = "two wings" -> TwoWingsPremise(r[1], r[2])
Holds(l, r, by) ==
    CASE l = "density" -> DensityLaw(r[1], r[2], by)
      [] l = "speed" -> SpeedLaw(r[1], r[2], by)
      [] l = "shift" -> ShiftLaw(r[1], r[2])
      [] l = "size" -> SizeLaw(r[1], r[2], by)
      [] l = "order" -> OrderLaw(r[1], r[2])
      [] l = "add" -> AddLaw(r[1], r[2], r[3])
      [] l = "zero" -> ZeroLaw(r[1])
      [] l = "turn" -> TurnLaw(r[1], r[2], by)
      [] l = "mirror" -> MirrorLaw(r[1], r[2])
      [] l = "symmetric" -> SymmetricLaw(r[1])
      [] l = "two wings" -> TwoWingsLaw(r[1], r[2])

Number(l) == CASE l \in {"zero", "symmetric"} -> 1 [] l = "add" -> 3 [] OTHER -> 2

Clauses(s, e) ==
    LET rs == Append(s.runs, e)
    IN IF e.outcome # "ok" THEN {"Accepted"}
       ELSE IF Len(rs) # Number(T(s).law) THEN {}
       ELSE Failing(<< <<"Premise", Given(T(s).law, rs, T(s).by)>>, <<"Law", Holds(T(s).law, rs, T(s).by)>> >>)
Step(s, e) == [s EXCEPT !.runs = Append(@, e)]
Detail(s, e) == [law |-> T(s).law, outcome |-> e.outcome,
                 coeffs |-> IF e.outcome # "ok" THEN <<>> ELSE [ i \in 1..Len(s.runs) |-> s.runs[i].coeffs ] \o <<e.coeffs>>]

INSTANCE TraceRun
=============================================================================
