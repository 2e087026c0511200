------------------------------ MODULE T_Settings ------------------------------
(***************************************************************************)
(* Traces of operations on settings objects.  After every operation the    *)
(* recorder shows all objects, the user's dictionary, the defaults a new   *)
(* object would get and the settings file.                                 *)
(***************************************************************************)
EXTENDS Settings, TraceBase

VARIABLES tr, ln, st

None == [ p \in {} |-> 0 ]
Start(t) == [objs |-> None, dict |-> None, file |-> None]

Set(s, x) == { s[i] : i \in DOMAIN s }
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]
Drop(f, x) == [ y \in DOMAIN f \ {x} |-> f[y] ]
SameFun(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]

NewObj(e) == IF e.src = "none" THEN Defaults ELSE Updated(Defaults, e.d)
\* the settings objects after the operation
Objs(s, e) ==
    CASE e.op = "new" -> Put(s.objs, e.o, NewObj(e))
      [] e.op = "update" -> Put(s.objs, e.o, Updated(s.objs[e.o], e.d))
      [] e.op = "mutate" -> Put(s.objs, e.o, Put(s.objs[e.o], e.path, e.val))
      [] e.op = "refused" -> Drop(s.objs, e.o)
      [] OTHER -> s.objs
Dict(s, e) == CASE e.op = "start" -> e.dict
                [] e.op = "mutdict" -> Put(s.dict, e.path, e.val)
                [] OTHER -> s.dict
File(s, e) == IF e.op = "save" THEN Visible(s.objs[e.o], Set(e.hid, 0)) ELSE s.file

ObjSame(x, y) == \A p \in Paths : p \in DOMAIN x /\ x[p] = y[p]

Clauses(s, e) ==
    CASE e.op = "single" ->
            LET good == Acceptable(Defaults, e.d) /\ e.suffix \in {".json", ".xml"}
                u == Updated(Defaults, e.d)
            IN Failing(<<
                <<"AcceptedIfValid", good => e.outcome = "ok">>,
                <<"RefusedIfInvalid", ~good => e.outcome # "ok">>,
                <<"DefaultsAndGiven", (good /\ e.outcome = "ok") => ObjSame(e.settings, u)>>,
                <<"FileType", (good /\ e.outcome = "ok") => (e.cpacs = (e.suffix = ".xml"))>>,
                <<"Places", (good /\ e.outcome = "ok") => e.paths = e.expect>> >>)
      [] OTHER ->
            LET objs == TLCEval(Objs(s, e)) IN Failing(<<
                <<"Works", e.op \in {"new", "update", "save"} => e.outcome = "ok">>,
                <<"Refused", e.op = "refused" => e.outcome # "ok">>,
                <<"ThisObject", (Has(e, "o") /\ e.o \in DOMAIN objs) => (e.o \in DOMAIN e.objs /\ ObjSame(e.objs[e.o], objs[e.o]))>>,
                <<"OtherObjects", \A o \in DOMAIN objs : (~Has(e, "o") \/ o # e.o) => (o \in DOMAIN e.objs /\ SameFun(e.objs[o], s.objs[o]))>>,
                <<"UsersDictionary", SameFun(e.dict, Dict(s, e))>>,
                <<"Defaults", ObjSame(e.defaults, Defaults)>>,
                <<"SavedFile", e.op = "save" => \A p \in Paths \ Hidden : p \in DOMAIN e.file /\ e.file[p] = objs[e.o][p]>>,
                <<"FileOnlyBySaving", e.op # "save" => SameFun(e.file, s.file)>> >>)

Step(s, e) == IF e.op = "single" THEN s
              ELSE [objs |-> e.objs, dict |-> e.dict, file |-> e.file]
Detail(s, e) == IF e.op = "single" THEN [d |-> e.d, outcome |-> e.outcome]
                ELSE [e |-> [ x \in DOMAIN e \ {"objs", "dict", "file", "defaults", "hid"} |-> e[x] ],
                      changed |-> [ o \in DOMAIN e.objs |-> IF o \in DOMAIN s.objs
                          THEN { p \in DOMAIN e.objs[o] : ~(p \in DOMAIN s.objs[o]) \/ s.objs[o][p] # e.objs[o][p] } ELSE {} ]]

INSTANCE TraceRun
=============================================================================
