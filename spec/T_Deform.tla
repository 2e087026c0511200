------------------------------- MODULE T_Deform -------------------------------
(***************************************************************************)
(* Traces of runs with a deformation file (without normal rotations).  The *)
(* trace carries the definition ac, the fields and the last flight point.  *)
(***************************************************************************)
EXTENDS LatticeObs, Moved

VARIABLES tr, ln, st

T(s) == Traces[s.k]
Start(t) == [k |-> t.k]

Rng(s) == { s[i] : i \in DOMAIN s }
Uids(s) == { T(s).ac.wings[i].uid : i \in DOMAIN T(s).ac.wings }

Quad(s, e) ==
    LET w == WingOf(T(s).ac, e.w)
        strip == TLCEval(MovedStrip(SegOf(w, e.s), e.ea, e.eb, w.sym, e.mirror, FieldOf(T(s).fields, e.w, e.mirror)))
    IN PatchOn(strip, e.xsi, w.sym, e.mirror)

Clauses(s, e) ==
    CASE e.e = "run" ->
            LET known == Known(Rng(e.names), Rng(e.ignored), Uids(s)) IN Failing(<<
                <<"AcceptedIfKnown", (known /\ AllFit(T(s).ac)) => e.outcome = "ok">>,
                <<"RefusedIfUnknown", ~known => e.outcome # "ok">> >>)
      [] e.e = "patch" -> PatchFailures(TLCEval(Quad(s, e)), TLCEval(WindDir(T(s).pt)), e)
      \* runs without a file, with fields of zeros and with one translation everywhere
      [] e.e = "rigid" -> Failing(<<
            <<"AllRun", e.none.outcome = "ok" => e.zero.outcome = "ok" /\ e.shifted.outcome = "ok">>,
            <<"ZeroChangesNothing", (e.none.outcome = "ok" /\ e.zero.outcome = "ok") =>
                /\ \A i \in DOMAIN e.none.p : \A k \in 1..4 : VNear(e.none.p[i][k], e.zero.p[i][k], Tol)
                /\ \A i \in DOMAIN e.none.n : VNear(e.none.n[i], e.zero.n[i], "1e-6")
                /\ \A x \in DOMAIN e.none.forces : FNear(e.none.forces[x], e.zero.forces[x], FMul("1e-5", e.scale))>>,
            <<"TranslationIsRigid", (e.none.outcome = "ok" /\ e.shifted.outcome = "ok") =>
                /\ \A i \in DOMAIN e.none.p : \A k \in 1..4 : VNear(VAdd(e.none.p[i][k], e.by), e.shifted.p[i][k], Tol)
                /\ \A i \in DOMAIN e.none.n : VNear(e.none.n[i], e.shifted.n[i], "1e-6")
                /\ \A x \in DOMAIN e.none.forces : FNear(e.none.forces[x], e.shifted.forces[x], FMul("1e-5", e.scale))>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == s
Detail(s, e) == IF e.e = "patch" THEN [w |-> e.w, s |-> e.s, mirror |-> e.mirror, quad |-> Quad(s, e), got |-> e.p[1]]
                ELSE IF e.e = "run" THEN [got |-> e] ELSE [none |-> e.none.forces, zero |-> e.zero.forces, shifted |-> e.shifted.forces]

INSTANCE TraceRun
=============================================================================
