------------------------------ MODULE T_Project ------------------------------
(***************************************************************************)
(* Traces of the command line tool.  Project!Tool predicts the exit status *)
(* and which places may change; the snapshots before and after every       *)
(* command show the files (path -> content) and directories.  The recorder *)
(* splits a path: part[path] = [slot, part] with part "results", "plots"   *)
(* (below _results, _plots), "log" or "rest".                              *)
(***************************************************************************)
EXTENDS Project, TraceBase
RF == INSTANCE ResultFiles

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, s |-> [ x \in Slots |-> NoSlot ]]

SameFiles(e) == DOMAIN e.before = DOMAIN e.after /\ \A p \in DOMAIN e.before : e.after[p] = e.before[p]
Dirs(ds) == { ds[i] : i \in DOMAIN ds }
Opts(e) == { e.opts[i] : i \in DOMAIN e.opts }
InputDirs == {"aircraft", "airfoils", "deformation", "settings", "state"}

CreateClauses(s, e, r) ==
    <<"ProjectCreated", \A p \in {"settings/" \o e.made \o ".json", "state/" \o e.made \o ".json"} :
            ("pytornado/" \o p) \in DOMAIN e.after>>
CreatedOnly(e) == \A p \in DOMAIN e.after : e.part[p].slot = "pytornado" \/ (Has(e.before, p) /\ e.after[p] = e.before[p])

\* where the run of slot sl may make directories
Allowed(e, sl) == { sl \o "/" \o d : d \in InputDirs \cup {"_results", "_plots"} }
                  \cup { sl \o "/" \o d \o "/" \o RF!Folder(e.base, i) : d \in {"_results", "_plots"}, i \in 0..(IF e.n > 0 THEN e.n - 1 ELSE 0) }

ResultsIn(files, e, sl) == { p \in DOMAIN files : e.part[p].slot = sl /\ e.part[p].part = "results" }
PlotsIn(files, e, sl) == { p \in DOMAIN files : e.part[p].slot = sl /\ e.part[p].part = "plots" }

RunClauses(s, e, r) ==
    LET sl == e.c.slot
        cleaned == e.c.clean # "no" /\ s.s[sl].good # "settings"
        only == e.c.clean = "only"
        works == s.s[sl].good = "yes" /\ ~only
        wanted == IF works THEN { sl \o "/_results/" \o RF!Place(e.base, f) : f \in RF!Wanted(Opts(e), e.n) } ELSE {}
        oldR == IF cleaned THEN {} ELSE ResultsIn(e.before, e, sl)
        oldP == IF cleaned THEN {} ELSE PlotsIn(e.before, e, sl)
        mine == { p \in PlotsIn(e.after, e, sl) : e.part[p].top \in { RF!Folder(e.base, i) : i \in 0..(e.n - 1) } }
        keeps(p) == Has(e.after, p) /\ e.after[p] = e.before[p]
    IN Failing(<<
        <<"InputsAndOthersUntouched", \A p \in DOMAIN e.before : (e.part[p].slot # sl \/ e.part[p].part = "rest") => keeps(p)>>,
        <<"NothingNewElsewhere", \A p \in DOMAIN e.after : (e.part[p].slot # sl \/ e.part[p].part = "rest") => Has(e.before, p)>>,
        <<"ResultFiles", ResultsIn(e.after, e, sl) = oldR \cup wanted>>,
        <<"OlderResultsKept", \A p \in oldR \ wanted : keeps(p)>>,
        <<"OlderPlotsKept", \A p \in oldP \ mine : keeps(p)>>,
        <<"PlotsInTheirFolders", PlotsIn(e.after, e, sl) \ oldP \subseteq (IF works /\ e.plots THEN mine ELSE {})>>,
        <<"PlotsMade", (works /\ e.plots) => mine # {}>>,
        <<"Log", works => (sl \o "/log.txt") \in DOMAIN e.after>>,
        <<"LogOnlyByRuns", (only \/ s.s[sl].good = "settings") => \A p \in DOMAIN e.after : e.part[p].part = "log" => (Has(e.before, p) /\ keeps(p))>>,
        <<"LogKept", \A p \in DOMAIN e.before : (e.part[p].part = "log") => (IF only \/ e.part[p].slot # sl THEN keeps(p) ELSE Has(e.after, p))>>,
        <<"DirectoriesMade", Dirs(e.adirs) \subseteq Dirs(e.bdirs) \cup Allowed(e, sl)>>,
        <<"DirectoriesKept", \A d \in Dirs(e.bdirs) : (d \in Dirs(e.adirs)) \/ (cleaned /\ e.dpart[d].slot = sl /\ e.dpart[d].part \in {"results", "plots"})>>,
        <<"CleanRemovesFolders", (only /\ cleaned) => \A d \in Dirs(e.adirs) : ~(e.dpart[d].slot = sl /\ e.dpart[d].part \in {"results", "plots"})>>,
        <<"CleanKeepsOnlyOwnFolders", (e.c.clean = "yes" /\ works) => \A d \in Dirs(e.adirs) :
              (e.dpart[d].slot = sl /\ e.dpart[d].part \in {"results", "plots"}) => d \in Allowed(e, sl)>> >>)

Clauses(s, e) ==
    IF ~e.tool THEN {}
    ELSE LET r == TLCEval(Tool(s.s, e.c)) IN
      Failing(<< <<"ExitStatus", (e.exit = 0) = r.ok>> >>) \cup
      CASE e.c.cmd \in {"bad", "info"} \/ (e.c.cmd \in {"example", "db"} /\ ~r.ok) \/ (e.c.cmd = "run" /\ (s.s[e.c.slot].kind # "project" \/ s.s[e.c.slot].good = "settings")) ->
             Failing(<< <<"NoFileTouched", SameFiles(e)>>, <<"NoDirectoryTouched", Dirs(e.bdirs) = Dirs(e.adirs)>> >>)
        [] e.c.cmd \in {"example", "db"} ->
             Failing(<< CreateClauses(s, e, r), <<"CreatesOnlyTheProject", CreatedOnly(e)>>,
                        <<"KeepsEverything", \A p \in DOMAIN e.before : Has(e.after, p) /\ e.after[p] = e.before[p]>>,
                        <<"CreatesNoResults", \A p \in DOMAIN e.after : e.part[p].slot = "pytornado" => e.part[p].part = "rest">> >>)
        [] OTHER -> RunClauses(s, e, r)

Step(s, e) == [s EXCEPT !.s = IF e.tool THEN Tool(@, e.c).s ELSE User(@, e.c)]
Detail(s, e) == IF ~e.tool THEN [c |-> e.c]
    ELSE [c |-> e.c, args |-> e.args, exit |-> e.exit, slots |-> s.s,
          changed |-> { p \in DOMAIN e.before \cup DOMAIN e.after : ~(Has(e.before, p) /\ Has(e.after, p) /\ e.before[p] = e.after[p]) }]

INSTANCE TraceRun
=============================================================================
