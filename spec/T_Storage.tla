------------------------------ MODULE T_Storage ------------------------------
(***************************************************************************)
(* Traces of loading, editing, saving, computing and running a project.    *)
(* After each operation the recorder shows the objects in memory (mem),    *)
(* what is in the files (file) and a digest of the files' text (text).     *)
(***************************************************************************)
EXTENDS Storage, TraceBase

VARIABLES tr, ln, st

None == [ x \in {} |-> 0 ]
Start(t) == [mem |-> None, file |-> None, text |-> None, inp |-> {}, raw |-> {}, saved |-> None, runs |-> <<>>]
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]
Drop(f, x) == [ y \in DOMAIN f \ {x} |-> f[y] ]

\* what loading the file gives, in each of the kinds, as far as the file tells
LoadOk(k, file, mem) ==
    CASE k = "aircraft" -> mem = LoadedAircraft(file)
      [] k = "state" -> \A p \in Given(file) : p \in DOMAIN mem /\ mem[p] = file[p]
      [] OTHER -> \A p \in DOMAIN file : p \in DOMAIN mem /\ mem[p] = file[p]
\* the file after saving an object
FileOk(k, mem, inp, file) ==
    CASE k = "aircraft" -> file = SavedAircraft(mem)
      [] k = "state" -> file = SavedState(mem, inp)
      [] OTHER -> DOMAIN file = DOMAIN mem /\ \A p \in DOMAIN mem : file[p] = mem[p]
SameBut(f, g, k) == DOMAIN f \ {k} = DOMAIN g \ {k} /\ \A x \in DOMAIN f \ {k} : f[x] = g[x]
SameResults(r, q) == Len(r) = Len(q) /\ \A i \in DOMAIN r : FNear(r[i], q[i], FMul("1e-9", FMax("1e-9", FMaxAbs(<<r[i], q[i]>>))))
\* the saved state of an object, if the file still holds it
SavedNow(s, k) == k \in DOMAIN s.saved

Inp(s, e) == CASE e.op = "load" /\ e.k = "state" -> Given(s.file["state"])
               [] e.op \in {"make", "edit"} /\ e.k = "state" -> { e.inp[i] : i \in DOMAIN e.inp }
               [] OTHER -> s.inp

Clauses(s, e) ==
    CASE e.op = "start" -> {}
      [] e.outcome # "ok" -> {"Works"}
      [] e.op = "move" -> Failing(<< <<"FilesKept", e.text = s.text /\ e.file = s.file>> >>)
      [] e.op = "load" -> Failing(<<
            <<"Loaded", LoadOk(e.k, s.file[e.k], e.mem[e.k])>>,
            <<"AsBeforeSaving", SavedNow(s, e.k) =>
                IF e.k = "aircraft" THEN e.mem[e.k] = Complete(s.saved[e.k].mem)
                ELSE IF e.k = "state" THEN \A p \in DOMAIN s.saved[e.k].mem : s.saved[e.k].mem[p] # <<>> => e.mem[e.k][p] = s.saved[e.k].mem[p]
                ELSE e.mem[e.k] = s.saved[e.k].mem>>,
            <<"OtherObjects", SameBut(e.mem, s.mem, e.k)>>,
            <<"FilesKept", e.text = s.text>> >>)
      [] e.op \in {"make", "edit"} -> Failing(<<
            <<"OtherObjects", SameBut(e.mem, s.mem, e.k)>>,
            <<"FilesKept", e.text = s.text>> >>)
      [] e.op = "save" -> Failing(<<
            <<"Saved", FileOk(e.k, s.mem[e.k], s.inp, e.file[e.k])>>,
            <<"SameFileAgain", (SavedNow(s, e.k) /\ ~s.saved[e.k].raw /\ e.k \notin s.raw /\ s.saved[e.k].mem = s.mem[e.k]) => e.text[e.k] = s.text[e.k]>>,
            <<"ObjectsKept", e.mem = s.mem>>,
            <<"OtherFiles", SameBut(e.text, s.text, e.k)>> >>)
      [] e.op = "compute" -> Failing(<<
            <<"OtherObjects", SameBut(e.mem, s.mem, "aircraft")>>,
            <<"OnlyPanelled", Panelled(s.mem["aircraft"], e.mem["aircraft"])>>,
            <<"SameResults", \A i \in DOMAIN s.runs : (s.runs[i].ac = Complete(e.mem["aircraft"]) /\ s.runs[i].st = Primary(s.mem["state"]))
                                => SameResults(e.res, s.runs[i].res)>>,
            <<"FilesKept", e.text = s.text>> >>)
      [] e.op = "run" -> Failing(<<
            <<"UsesTheFiles", Panelled(LoadedAircraft(s.file["aircraft"]), e.ac)
                              /\ \A p \in Given(s.file["state"]) : e.st[p] = s.file["state"][p]>>,
            <<"SameResults", \A i \in DOMAIN s.runs : (s.runs[i].ac = e.ac /\ s.runs[i].st = Primary(e.st))
                                => SameResults(e.res, s.runs[i].res)>>,
            <<"ObjectsKept", e.mem = s.mem>>,
            <<"FilesKept", e.text = s.text>> >>)
      [] OTHER -> {"UnknownOperation"}

Step(s, e) ==
    [mem |-> e.mem, file |-> e.file, text |-> e.text, inp |-> Inp(s, e),
     \* made but not generated: numbers are written as the user gave them
     raw |-> CASE e.op = "load" -> s.raw \ {e.k}
               [] e.op \in {"make", "edit"} -> IF e.raw THEN s.raw \cup {e.k} ELSE s.raw \ {e.k}
               [] OTHER -> s.raw,
     saved |-> CASE e.op = "save" -> Put(s.saved, e.k, [mem |-> s.mem[e.k], raw |-> e.k \in s.raw])
                 [] OTHER -> s.saved,
     runs |-> CASE e.op = "compute" -> Append(s.runs, [ac |-> Complete(e.mem["aircraft"]), st |-> Primary(s.mem["state"]), res |-> e.res])
                [] e.op = "run" -> Append(s.runs, [ac |-> e.ac, st |-> Primary(e.st), res |-> e.res])
                [] OTHER -> s.runs]
Detail(s, e) == [op |-> e.op, k |-> IF Has(e, "k") THEN e.k ELSE "", outcome |-> e.outcome,
                 got |-> IF e.op = "load" THEN e.mem[e.k] ELSE IF e.op = "save" /\ e.outcome = "ok" THEN e.file[e.k] ELSE <<>>,
                 had |-> IF e.op = "load" THEN s.file[e.k] ELSE IF e.op = "save" THEN s.mem[e.k] ELSE <<>>]

INSTANCE TraceRun
=============================================================================
