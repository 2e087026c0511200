----------------------------- MODULE T_Definition -----------------------------
(***************************************************************************)
(* Traces of loading (and running) aircraft files.  doc is the file, files *)
(* the airfoil files of the project.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Definition

VARIABLES tr, ln, st

Start(t) == [k |-> t.k]
T(s) == Traces[s.k]
F(s) == Findings(T(s).doc, { T(s).files[i] : i \in DOMAIN T(s).files })

Clauses(s, e) ==
    LET f == TLCEval(F(s))  v == Verdict(f) IN
    CASE e.e = "load" -> Failing(<<
            <<"IllDefinedIsRefused", v = "bad" => e.outcome # "ok">>,
            <<"WellDefinedIsAccepted", v = "ok" => e.outcome = "ok">>,
            <<"TakenAsGiven", (v \in {"ok", "late"} /\ e.outcome = "ok") => AsGiven(T(s).doc, e.model)>>,
            <<"GeneratedState", e.outcome = "ok" => e.state>> >>)
      [] e.e = "run" -> Failing(<<
            <<"NoAnalysisOfIllDefined", ("bad" \in Kinds(f) \/ v = "late") => e.outcome # "ok">>,
            <<"NoResultFiles", ("bad" \in Kinds(f) \/ v = "late") => e.files = <<>> >> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == s
Detail(s, e) == [objections |-> F(s), got |-> e]

INSTANCE TraceRun
=============================================================================
