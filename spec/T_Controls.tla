------------------------------ MODULE T_Controls ------------------------------
(***************************************************************************)
(* Traces of whole runs: where the control surfaces end up.                *)
(* run(ac, outcome), then one wing event per wing with the modelled strips.*)
(***************************************************************************)
EXTENDS Panelling, TraceBase

VARIABLES tr, ln, st

Start(t) == [ac |-> <<>>, n |-> 0]
Tol == "1e-7"

Strips(e) == [ i \in DOMAIN e.segs |-> AbsStrips(e.segs[i].strips) ]
NumS(e) == [ i \in DOMAIN e.segs |-> e.segs[i].num_s ]

\* the strips that carry control c, stated without reference to the order of requests
OnStrip(w, c, i, s) ==
    \E k \in DOMAIN ControlParts(w, c) :
        LET p == ControlParts(w, c)[k]
        IN p.seg = i /\ FLt(FSub(p.ea, s.ea), MinEta) /\ FLt(FSub(s.eb, p.eb), MinEta)

WingClauses(w, e) ==
    LET want == TLCEval(WingStrips(w, NumS(e)))
        got  == TLCEval(Strips(e))
        kinds == {"flap", "slat"}
    IN Failing(<<
        <<"SameWing", e.uid = w.uid /\ Len(e.segs) = Len(w.segs) /\ \A i \in DOMAIN w.segs : e.segs[i].uid = w.segs[i].uid>>,
        <<"ControlsOnDeclaredStrips",
          \A i \in DOMAIN got : \A j \in DOMAIN got[i] : \A ty \in kinds :
             ~IsNone(got[i][j][ty]) =>
                \E k \in DOMAIN w.ctls : /\ w.ctls[k].u = got[i][j][ty].u /\ w.ctls[k].type = ty
                                         /\ OnStrip(w, w.ctls[k], i, got[i][j])>>,
        <<"DeclaredStripsCarryControl",
          \A k \in DOMAIN w.ctls : \A i \in DOMAIN got : \A j \in DOMAIN got[i] :
             (OnStrip(w, w.ctls[k], i, got[i][j]) /\ FLe(MinEta, FSub(got[i][j].eb, got[i][j].ea))
                /\ \E q \in DOMAIN want.wss[i] : want.wss[i][q][w.ctls[k].type].u = w.ctls[k].u)
             => got[i][j][w.ctls[k].type].u = w.ctls[k].u>>,
        <<"EdgeAndHingeLines", \A i \in DOMAIN got : SameStrips(got[i], want.wss[i], Tol)>> >>)

Clauses(s, e) ==
    CASE e.e = "run" -> LET fit == TLCEval(AllFit(e.ac)) IN Failing(<<
            <<"AcceptedWhenControlsFit", fit => e.outcome = "ok">>,
            <<"ClashingControlsRefused", ~fit => e.outcome = "refused">> >>)
      [] e.e = "wing" -> IF s.n + 1 > Len(s.ac.wings) THEN {"TooManyWings"}
                         ELSE WingClauses(s.ac.wings[s.n + 1], e)
      [] e.e = "end" -> Failing(<< <<"AllWingsModelled", s.n = Len(s.ac.wings)>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == CASE e.e = "run" -> [ac |-> e.ac, n |-> 0]
                [] e.e = "wing" -> [s EXCEPT !.n = @ + 1]
                [] OTHER -> s

Detail(s, e) == IF e.e = "wing" /\ s.n + 1 <= Len(s.ac.wings)
                THEN [wing |-> e.uid, got |-> Strips(e), want |-> WingStrips(s.ac.wings[s.n + 1], NumS(e)).wss]
                ELSE [ev |-> e.e]

INSTANCE TraceRun
=============================================================================
