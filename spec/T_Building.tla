------------------------------ MODULE T_Building ------------------------------
(***************************************************************************)
(* Traces of building aircraft with the API.  After every operation all    *)
(* models, and what the iteration tools yield for them, are recorded.  A   *)
(* trace asks for the building clauses or for those of the iteration.      *)
(***************************************************************************)
EXTENDS TraceBase, Building, Integers

VARIABLES tr, ln, st

Start(t) == [k |-> t.k, m |-> [ a \in {} |-> NewModel ]]
Want(s) == Traces[s.k].want

Dom(s, e) == DOMAIN e.models
Old(s, e, a) == IF a \in DOMAIN s.m THEN s.m[a] ELSE NewModel
Expected(s, e, a) == IF a = e.a /\ e.op \notin {"start", "generate"} /\ e.outcome = "ok" THEN After(Old(s, e, a), e) ELSE Old(s, e, a)
IsOpen(e) == e.op = "symmetry" /\ OpenSym(e.v)
\* what is observed of a number that was taken as flag
SameModel(x, y) == x.uid = y.uid /\ Len(x.wings) = Len(y.wings)
    /\ \A i \in DOMAIN x.wings : x.wings[i].uid = y.wings[i].uid /\ x.wings[i].sym = y.wings[i].sym
                                 /\ x.wings[i].segs = y.wings[i].segs /\ x.wings[i].ctls = y.wings[i].ctls
AllBuilt(m) == Len(m.wings) > 0 /\ \A i \in DOMAIN m.wings : Len(m.wings[i].segs) > 0

Build(s, e) == Failing(<<
    <<"ModelAsBuilt", \A a \in Dom(s, e) : SameModel(e.models[a], Expected(s, e, a))>>,
    <<"RefusedIfInvalid", e.op \notin {"start", "generate"} => (~Good(Old(s, e, e.a), e) /\ ~IsOpen(e) => e.outcome # "ok")>>,
    <<"AcceptedIfValid", e.op \notin {"start", "generate"} => (Good(Old(s, e, e.a), e) => e.outcome = "ok")>>,
    <<"ReturnsTheNewPart", e.new>>,
    <<"NothingShared", ~e.shared>>,
    <<"GenerateAccepts", (e.op = "generate" /\ e.broken = "" /\ AllBuilt(Old(s, e, e.a))) => e.outcome = "ok">>,
    <<"GenerateRefuses", (e.op = "generate" /\ e.broken # "") => e.outcome # "ok">>,
    <<"State", e.op = "generate" => /\ ~e.before
                                    /\ e.state[1] = (e.outcome = "ok")
                                    /\ e.outcome = "ok" => \A i \in DOMAIN e.state : e.state[i]>> >>)

\* the walks of what is stored
Areas(c) == Flat([ i \in DOMAIN c |-> Flat([ j \in DOMAIN c[i].segs |-> Flat([ d \in DOMAIN c[i].segs[j].strips |->
    [ n \in DOMAIN c[i].segs[j].strips[d].areas |->
        << <<n - 1, c[i].segs[j].strips[d].areas[n]>>, <<d - 1, c[i].segs[j].strips[d].name>>, <<j - 1, c[i].segs[j].uid>>, <<i - 1, c[i].uid>> >> ] ]) ]) ])
Strips(c) == Flat([ i \in DOMAIN c |-> Flat([ j \in DOMAIN c[i].segs |-> [ d \in DOMAIN c[i].segs[j].strips |->
    << <<d - 1, c[i].segs[j].strips[d].name>>, <<j - 1, c[i].segs[j].uid>>, <<i - 1, c[i].uid>> >> ] ]) ])
Segments(c) == Flat([ i \in DOMAIN c |-> [ j \in DOMAIN c[i].segs |-> << <<j - 1, c[i].segs[j].uid>>, <<i - 1, c[i].uid>> >> ] ])
Controls(c) == Flat([ i \in DOMAIN c |-> [ j \in DOMAIN c[i].ctls |-> << <<j - 1, c[i].ctls[j]>>, <<i - 1, c[i].uid>> >> ] ])
Wings(c) == [ i \in DOMAIN c |-> << <<i - 1, c[i].uid>> >> ]

WalkOk(c, w) == Failing(<<
    <<"WalkWings", w.wings = Wings(c)>>,
    <<"WalkSegments", w.segments = Segments(c)>>,
    <<"WalkControls", w.controls = Controls(c)>>,
    <<"WalkStrips", w.strips = Strips(c)>>,
    <<"WalkAreas", w.areas = Areas(c)>>,
    <<"OwnObjects", w.fine>>,
    <<"Counts", w.counts = << Len(c), Len(Segments(c)), Len(Controls(c)), Len(Areas(c)) >> >> >>)
\* the walks of the model as it should be
Walk(s, e) == UNION { LET c == e.contents[a]  w == e.walks[a]  m == TLCEval(Expected(s, e, a)) IN
    WalkOk(c, w)
    \cup Failing(<< <<"DeclarationOrder", w.segments = WalkSegments(m) /\ w.controls = WalkControls(m) /\ w.wings = WalkWings(m)>> >>) : a \in Dom(s, e) }
    \cup Failing(<< <<"OwnParents", e.parents>>, <<"NothingShared", ~e.shared>> >>)

\* a finished model: contents and walks, and the patches of each control
Owners(c) == Flat([ i \in DOMAIN c |-> Flat([ j \in DOMAIN c[i].segs |-> Flat([ d \in DOMAIN c[i].segs[j].strips |-> c[i].segs[j].strips[d].owners ]) ]) ])
WingOf(w) == w[4][1] + 1
PatchesOf(c, uid) == LET a == Areas(c)  o == Owners(c)  own == { i \in DOMAIN a : o[i] = uid } IN
    [ n \in 1..Cardinality(own) |-> a[CHOOSE i \in own : Cardinality({ j \in own : j < i }) = n - 1][1] ]
Places(a) == { << a[i][1][2], a[i][2][2], a[i][3][2], a[i][4][2] >> : i \in DOMAIN a }
Ready(s, e) == LET a == TLCEval(Areas(e.contents))  o == TLCEval(Owners(e.contents)) IN
    WalkOk(e.contents, e.walks)
    \cup Failing(<< <<"OwnParents", e.parents>>, <<"NothingShared", ~e.shared>>,
        <<"PatchesOfControl", \A i \in DOMAIN e.patches : e.patches[i].got = (IF e.patches[i].uid = "nothing" THEN <<>> ELSE PatchesOf(e.contents, e.patches[i].uid))>>,
        <<"OwnersOfPatches", \A i \in DOMAIN a : IF a[i][1][2] = "segment" THEN o[i] = "" ELSE \E n \in DOMAIN e.contents[WingOf(a[i])].ctls : e.contents[WingOf(a[i])].ctls[n] = o[i]>>,
        \* the lattice has each patch of the walk once, and its image if there is one
        <<"EveryPatchMeshed", Len(e.meshed.main) = Len(a) /\ { e.meshed.main[i] : i \in DOMAIN e.meshed.main } = Places(a)>>,
        <<"EveryImageMeshed", LET im == { i \in DOMAIN a : e.syms[WingOf(a[i])] # "0" } IN
            Len(e.meshed.mirror) = Cardinality(im)
            /\ { e.meshed.mirror[i] : i \in DOMAIN e.meshed.mirror } = { << a[i][1][2], a[i][2][2], a[i][3][2], a[i][4][2] >> : i \in im }>> >>)

\* the database: names, files and models
Db(s, e) == LET all == { e.stems[i] : i \in DOMAIN e.stems } IN Failing(<<
    <<"Names", { e.names[i] : i \in DOMAIN e.names } = all /\ Len(e.names) = Len(e.stems)>>,
    <<"Listed", { e.listed[i] : i \in DOMAIN e.listed } = all /\ Len(e.listed) = Len(e.stems)>>,
    <<"Found", \A i \in DOMAIN e.paths : e.paths[i].outcome = (IF e.paths[i].name \in all THEN "ok" ELSE "refused")>>,
    <<"RightFile", \A i \in DOMAIN e.paths : e.paths[i].outcome = "ok" => e.paths[i].file = e.paths[i].name>>,
    <<"AllPrinted", e.what = "print" => e.inprint = e.stems>>,
    <<"Pristine", e.digest = e.truth>>,
    <<"NothingShared", ~e.shared>> >>)

Clauses(s, e) == IF e.op = "failed" THEN {"NoError"} ELSE IF e.op = "db" THEN Db(s, e) ELSE IF e.op = "ready" THEN Ready(s, e) ELSE IF Want(s) = "build" THEN Build(s, e) ELSE Walk(s, e)
Step(s, e) == IF e.op \in {"db", "ready", "failed"} THEN s ELSE [s EXCEPT !.m = e.models]
Detail(s, e) == [ x \in DOMAIN e \ {"contents", "models"} |-> e[x] ]

INSTANCE TraceRun
=============================================================================
