------------------------------ MODULE MC_Sessions ------------------------------
EXTENDS Sessions, TLC, Json

CONSTANTS MaxLen, Kinds, MaxHandles, MaxHeld, Points

Slots == {"A", "B"}
KindMaps == { f \in [ Slots -> [ 1..2 -> Kinds ] ] : f["A"][1] = "ok" }
NMaps == { f \in [ Slots -> [ 1..2 -> Points ] ] : \A s, t \in Slots : f[s] = f[t] }
\* the versions save different files: version 1 of A saves all
FilesOf(s, v, i) == IF s = "A" /\ v = 2 THEN {<<"global", i>>} ELSE { <<k, i>> : k \in {"global", "panelwise"} }
Map(s, v) == {<<"map", 0>>}

VARIABLES x, kind, n, last, hist
vars == <<x, kind, n, last, hist>>
Init == x = NewSession(Slots) /\ kind \in KindMaps /\ n \in NMaps /\ last = [op |-> "start"] /\ hist = <<>>
K(s) == kind[s][x.ver[s]]
AllFiles(s, v) == UNION { FilesOf(s, v, i) : i \in 1..n[s][v] } \cup Map(s, v)
Do(c, y) == x' = y /\ last' = c /\ hist' = Append(hist, c) /\ UNCHANGED <<kind, n>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E s \in Slots :
                \/ Len(x.held) < MaxHeld /\ Do([op |-> "run", s |-> s], Run(x, s, K(s), n[s][x.ver[s]], AllFiles(s, x.ver[s])))
                \/ Do([op |-> "edit", s |-> s], Edit(x, s))
                \/ Len(x.handles) < MaxHandles /\ Do([op |-> "load", s |-> s], Load(x, s, K(s)))
           \/ \E i \in DOMAIN x.handles : LET h == x.handles[i] IN
                \/ CanStep(h, n[h.slot][h.v]) /\ Do([op |-> "step", h |-> i], Advance(x, i, kind[h.slot][h.v]))
                \/ CanSave(h) /\ Do([op |-> "save", h |-> i], Save(x, i, FilesOf(h.slot, h.v, h.point)))
                \/ h.live /\ Do([op |-> "spoil", h |-> i], SpoilHandle(x, i))
           \/ \E i \in DOMAIN x.held : x.held[i].live /\ Do([op |-> "spoilheld", i |-> i], SpoilHeld(x, i))
Spec == Init /\ [][Next]_vars
View == <<x, kind, n, last, Len(hist)>>
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist', kind |-> kind, n |-> n]))

\* what happens to one project leaves the files of others
OwnFilesOnly == [][ \A s \in Slots : x'.disk[s] # x.disk[s] => (last'.op = "run" /\ last'.s = s) \/ (last'.op = "save" /\ x.handles[last'.h].slot = s) ]_vars
\* an analysis belongs to the version that was loaded
HandlesKeepTheirVersion == [][ \A i \in DOMAIN x.handles : x'.handles[i].slot = x.handles[i].slot /\ x'.handles[i].v = x.handles[i].v ]_vars
OnlyTheSteppedMoves == [][ \A i \in DOMAIN x.handles : x'.handles[i] # x.handles[i] => last'.op \in {"step", "spoil"} /\ last'.h = i ]_vars
HeldStay == [][ \A i \in DOMAIN x.held : x'.held[i] # x.held[i] => last'.op = "spoilheld" /\ last'.i = i ]_vars
\* after a run all of its files are there and are its own
RunFiles == [][ (last'.op = "run" /\ K(last'.s) = "ok") =>
                  \A f \in AllFiles(last'.s, x.ver[last'.s]) : f \in DOMAIN x'.disk[last'.s] /\ x'.disk[last'.s][f] = x.ver[last'.s] ]_vars
RefusedHasNoEffect == [][ (last'.op \in {"run", "load"} /\ K(last'.s) \notin {"ok", "mesh"}) => x' = x ]_vars
PointsInOrder == \A i \in DOMAIN x.handles : LET h == x.handles[i] IN h.point <= n[h.slot][h.v] /\ (h.stage = "loaded" <=> h.point = 0)
=============================================================================
