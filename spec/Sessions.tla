------------------------------- MODULE Sessions -------------------------------
(***************************************************************************)
(* One process in which projects are run, one after another or with the    *)
(* building blocks of their analyses interleaved, while the user changes   *)
(* the projects' files.  Each place (slot) holds one version of a project  *)
(* at a time.  A handle is an analysis that is done step by step; it       *)
(* belongs to the version that was loaded.                                 *)
(* Kind[s][v]: "ok", or the step in which the analysis is refused; N[s][v]: *)
(* number of flight points; Files[s][v]: names of the result files.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Stages == <<"loaded", "meshed", "downwash", "boundary", "solved", "done">>
NextStage(g) == IF g = "done" THEN "meshed" ELSE Stages[(CHOOSE i \in DOMAIN Stages : Stages[i] = g) + 1]

\* session: [ver, disk, handles, held];  disk[s]: name of file -> version that wrote it last
Empty == [ f \in {} |-> 0 ]
Written(disk, names, v) == [ f \in DOMAIN disk \cup names |-> IF f \in names THEN v ELSE disk[f] ]

NewSession(slots) == [ver |-> [ s \in slots |-> 1 ], disk |-> [ s \in slots |-> Empty ], handles |-> <<>>, held |-> <<>>]
\* a change of the user's files: everything else stays
Edit(x, s) == [x EXCEPT !.ver[s] = 3 - @]
Run(x, s, kind, n, files) ==
    IF kind # "ok" THEN x
    ELSE [x EXCEPT !.disk[s] = Written(@, files, x.ver[s]), !.held = Append(@, [slot |-> s, v |-> x.ver[s], point |-> n, live |-> TRUE])]
Load(x, s, kind) ==
    IF kind \in {"ok", "mesh"} THEN [x EXCEPT !.handles = Append(@, [slot |-> s, v |-> x.ver[s], point |-> 0, stage |-> "loaded", live |-> TRUE])] ELSE x
CanStep(h, n) == h.live /\ (h.stage # "done" \/ h.point < n)
StepOn(h, kind) ==
    LET g == NextStage(h.stage) IN
    IF g = "meshed" /\ kind = "mesh" THEN [h EXCEPT !.live = FALSE] ELSE [h EXCEPT !.stage = g, !.point = IF g = "meshed" THEN @ + 1 ELSE @]
Advance(x, i, kind) == [x EXCEPT !.handles[i] = StepOn(@, kind)]
\* files: those of the point of the handle
Save(x, i, files) == LET h == x.handles[i] IN [x EXCEPT !.disk[h.slot] = Written(@, files, h.v)]
CanSave(h) == h.live /\ h.stage = "done"
\* objects that were given to the user are changed by the user and not used further
SpoilHandle(x, i) == [x EXCEPT !.handles[i].live = FALSE]
SpoilHeld(x, i) == [x EXCEPT !.held[i].live = FALSE]
=============================================================================
