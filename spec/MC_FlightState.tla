---------------------------- MODULE MC_FlightState ----------------------------
(***************************************************************************)
(* Every shape of flight-state input: each speed parameter absent, null,   *)
(* a number, or a list; every class of angle; equal and unequal lengths.   *)
(* Life cycle: New -> (Update) -> Accepted or Refused -> points one by one.*)
(***************************************************************************)
EXTENDS FlightState, Json

VARIABLES phase, inp, idx, seen

vars == <<phase, inp, idx, seen>>

Forms == {"absent", "null", "num", "list1", "list3"}
Nominal == [ airspeed |-> "100.0", density |-> "1.1", altitude |-> "3000.0", mach |-> "0.3",
             alpha |-> "2.0", beta |-> "-1.0", rate_P |-> "0.1", rate_Q |-> "0.0", rate_R |-> "-0.2" ]

Mk(form, x) == CASE form = "absent" -> [k |-> "absent", v |-> <<>>]
                 [] form = "null"   -> [k |-> "null", v |-> <<>>]
                 [] form = "num"    -> [k |-> "num", v |-> <<x>>]
                 [] form = "list1"  -> [k |-> "list", v |-> <<x>>]
                 [] form = "list2"  -> [k |-> "list", v |-> <<x, x>>]
                 [] form = "list3"  -> [k |-> "list", v |-> <<x, x, x>>]

AngleClasses == {"2.0", "90.0", "-90.0", "90.0000001", "-90.0000001", "180.0", "-1000.0"}

Init == /\ phase = "new"
        /\ inp \in [AllParams -> {[k |-> "absent", v |-> <<>>]}]
        /\ idx = 0
        /\ seen = <<>>

\* The user gives a dictionary
Update ==
    /\ phase = "new"
    /\ phase' = "given"
    /\ \E sp \in [SpeedParams -> Forms] :
       \E af \in {"num", "list1", "list2", "list3"} :
       \E al \in AngleClasses : \E be \in AngleClasses :
          \* all pairs of angle classes only for plain input
          /\ (al # "2.0" \/ be # "2.0") => /\ sp["airspeed"] = "list3" /\ sp["density"] = "list3"
                                           /\ sp["altitude"] = "absent" /\ sp["mach"] = "null"
                                           /\ af = "list3"
          /\ inp' = [ p \in AllParams |->
                IF p \in SpeedParams THEN Mk(sp[p], Nominal[p])
                ELSE IF p = "alpha" THEN Mk(af, al)
                ELSE IF p = "beta" THEN Mk(af, be)
                ELSE Mk(af, Nominal[p]) ]
    /\ UNCHANGED <<idx, seen>>

Accept == /\ phase = "given" /\ Acceptable(inp)
          /\ phase' = "accepted" /\ UNCHANGED <<inp, idx, seen>>
Refuse == /\ phase = "given" /\ ~Acceptable(inp)
          /\ phase' = "refused" /\ UNCHANGED <<inp, idx, seen>>
NextPoint == /\ phase = "accepted" /\ idx < NPoints(inp)
             /\ idx' = idx + 1
             /\ seen' = Append(seen, Point(inp, idx + 1))
             /\ UNCHANGED <<phase, inp>>

Next == Update \/ Accept \/ Refuse \/ NextPoint
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
OneRule == phase = "accepted" =>
    /\ Cardinality(Given(inp) \cap SpeedParams) = 2
    /\ ("density" \in Given(inp)) # ("altitude" \in Given(inp))
    /\ ("airspeed" \in Given(inp)) # ("mach" \in Given(inp))
PointsWellDefined == \A i \in DOMAIN seen :
    /\ \A p \in DOMAIN seen[i] : FFinite(seen[i][p])
    /\ FLt("0.0", seen[i].density) /\ FLe("0.0", seen[i].airspeed)
    /\ AngleOK(seen[i].alpha) /\ AngleOK(seen[i].beta)
SpeedPreserved == \A i \in DOMAIN seen :
    FNear(VNorm(FreeStream(seen[i].airspeed, seen[i].alpha, seen[i].beta)), seen[i].airspeed, "1e-9")
NeverBoth == ~(phase = "refused" /\ seen # <<>>)
AllPointsInOrder == phase = "accepted" => Len(seen) = idx /\ idx <= NPoints(inp)

Shape(x) == [p \in AllParams |-> [k |-> x[p].k, n |-> Len(x[p].v)]]
Emit == phase \in {"accepted", "refused"} /\ idx = 0 =>
    PrintT("@@CASE@@" \o ToJson([shape |-> Shape(inp), ok |-> phase = "accepted",
           alpha |-> IF inp["alpha"].v = <<>> THEN "" ELSE inp["alpha"].v[1],
           beta |-> IF inp["beta"].v = <<>> THEN "" ELSE inp["beta"].v[1]]))
=============================================================================
