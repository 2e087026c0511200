------------------------------ MODULE T_Sessions ------------------------------
(***************************************************************************)
(* Traces of sessions.  truth[slot][version] is what a process that does   *)
(* nothing else gave: outcome, kind, n, points (digests for each point:    *)
(* of results so far, lattice, matrix, rhs, gamma, panelwise, forces,      *)
(* coeffs), files: name -> digest, and of[i]: names of files of point i.   *)
(***************************************************************************)
EXTENDS TraceBase, Sessions, TLC

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, x |-> NewSession(DOMAIN t.truth)]
Truth(s, sl, v) == Traces[s.k].truth[sl][v]
Now(s, sl) == Truth(s, sl, s.x.ver[sl])
Set(q) == { q[i] : i \in DOMAIN q }

After(s, e) ==
    CASE e.op = "run" -> LET t == Now(s, e.s) IN Run(s.x, e.s, t.kind, t.n, DOMAIN t.files)
      [] e.op = "edit" -> Edit(s.x, e.s)
      [] e.op = "load" -> Load(s.x, e.s, Now(s, e.s).kind)
      [] e.op = "step" -> LET h == s.x.handles[e.h] IN Advance(s.x, e.h, Truth(s, h.slot, h.v).kind)
      [] e.op = "save" -> LET h == s.x.handles[e.h] IN Save(s.x, e.h, Set(Truth(s, h.slot, h.v).of[h.point]))
      [] e.op = "spoil" -> SpoilHandle(s.x, e.h)
      [] e.op = "spoilheld" -> SpoilHeld(s.x, e.i)

\* what has been computed in a stage
Have == [loaded |-> {}, meshed |-> {"lattice"}, downwash |-> {"lattice", "matrix"}, boundary |-> {"lattice", "matrix", "rhs"},
         solved |-> {"lattice", "matrix", "rhs", "gamma"}, done |-> {"lattice", "matrix", "rhs", "gamma", "panelwise", "forces", "coeffs"}]
All == Have.done
HandleOk(s, h, o) == \A k \in Have[h.stage] : o[k] = Truth(s, h.slot, h.v).points[h.point][k]
HeldOk(s, h, o) == LET t == Truth(s, h.slot, h.v) IN o.results = t.results /\ \A k \in All : o[k] = t.points[t.n][k]
FilesOk(s, y, sl, have) == /\ DOMAIN have = DOMAIN y.disk[sl]
                           /\ \A f \in DOMAIN have : have[f] = Truth(s, sl, y.disk[sl][f]).files[f]
Expected(s, e) ==
    CASE e.op \in {"run", "load"} -> LET t == Now(s, e.s) IN IF e.op = "load" /\ t.kind = "mesh" THEN "ok" ELSE t.outcome
      [] e.op = "step" -> LET h == s.x.handles[e.h]  t == Truth(s, h.slot, h.v) IN IF h.stage = "loaded" THEN t.outcome ELSE "ok"
      [] OTHER -> "ok"

Clauses(s, e) ==
    IF e.op = "failed" THEN {"NoError"}
    ELSE IF e.op = "truth" THEN Failing(<< <<"SamePointsAlone", e.prefix>>, <<"SameInAnotherProcess", e.other>>, <<"KindAsMeant", e.kinds>> >>)
    ELSE LET y == TLCEval(After(s, e)) IN Failing(<<
        <<"Outcome", e.outcome = Expected(s, e)>>,
        <<"Results", e.op = "run" /\ e.outcome = "ok" /\ Len(e.held) = Len(y.held) => HeldOk(s, y.held[Len(y.held)], e.held[Len(e.held)])>>,
        <<"EarlierResultsStay", e.outcome = Expected(s, e) => \A i \in DOMAIN s.x.held : y.held[i].live => HeldOk(s, y.held[i], e.held[i])>>,
        <<"BuildingBlocks", e.outcome = Expected(s, e) => \A i \in DOMAIN y.handles : (y.handles[i].live /\ (e.op = "step" => e.h = i)) => HandleOk(s, y.handles[i], e.handles[i])>>,
        <<"OtherAnalysesStay", e.outcome = Expected(s, e) => \A i \in DOMAIN s.x.handles : y.handles[i].live /\ y.handles[i] = s.x.handles[i] => HandleOk(s, y.handles[i], e.handles[i])>>,
        <<"ResultFiles", \A sl \in DOMAIN y.disk : FilesOk(s, y, sl, e.files[sl])>>,
        <<"InputsUntouched", e.inputs>> >>)

Step(s, e) == IF e.op \in {"failed", "truth"} THEN s ELSE [s EXCEPT !.x = After(s, e)]
Detail(s, e) == IF e.op \in {"failed", "truth"} THEN e
    ELSE LET y == After(s, e) IN [op |-> e.op, outcome |-> e.outcome, expected |-> Expected(s, e), handles |-> y.handles, held |-> y.held,
      wrong |-> { sl \in DOMAIN y.disk : ~FilesOk(s, y, sl, e.files[sl]) }]

INSTANCE TraceRun
=============================================================================
