----------------------------- MODULE MC_Storage -----------------------------
(***************************************************************************)
(* Loading, editing, saving and running a project, which may be moved.     *)
(* Values are abstract: a model is its version and the way its airfoil is  *)
(* given.  What a run computes is a function of the models.                *)
(***************************************************************************)
EXTENDS Storage, Json

CONSTANTS MaxLen, Versions

NoMem == [v |-> 99, foil |-> [k |-> "none", n |-> 0], panels |-> FALSE]

VARIABLES place,    \* where the project is
          file,     \* kind -> what its file holds
          mem,      \* kind -> the object, NoMem if there is none
          solved,   \* the aircraft in memory has been panelled
          last, hist
vars == <<place, file, mem, solved, last, hist>>

Foils == { [k |-> "rel", n |-> 0], [k |-> "inside", n |-> 0], [k |-> "path", n |-> 0], [k |-> "name", n |-> 0] }
Init == /\ place = 0 /\ solved = FALSE
        /\ \E f \in Foils : file = [ k \in Kinds |-> [v |-> 0, foil |-> f, panels |-> FALSE] ]
        /\ mem = [ k \in Kinds |-> NoMem ]
        /\ last = [op |-> "start"] /\ hist = <<>>
Do(op) == last' = op /\ hist' = Append(hist, op)
Alive(k) == mem[k] # NoMem
\* n of "inside" is the place at which the path was written down
LoadV(k) == [file[k] EXCEPT !.foil = LoadedFoil(@)]
SaveV(k) == [mem[k] EXCEPT !.foil = SavedFoil(@)]
Runs == file["aircraft"].foil.k = "inside" => file["aircraft"].foil.n = place

Load(k) == /\ (k = "aircraft" => Runs)
           /\ (k # "settings" => Alive("settings"))
           /\ mem' = [mem EXCEPT ![k] = LoadV(k)]
           /\ solved' = IF k = "aircraft" THEN FALSE ELSE solved
           /\ Do([op |-> "load", k |-> k]) /\ UNCHANGED <<place, file>>
Make(k) == /\ Alive("settings") /\ k # "settings" /\ ~Alive(k)
           /\ mem' = [mem EXCEPT ![k] = [v |-> 7, foil |-> [k |-> "project", n |-> 0], panels |-> FALSE]]
           /\ solved' = IF k = "aircraft" THEN FALSE ELSE solved
           /\ Do([op |-> "make", k |-> k]) /\ UNCHANGED <<place, file>>
Edit(k) == /\ Alive(k) /\ \E v \in Versions : v # mem[k].v /\ mem' = [mem EXCEPT ![k].v = v]
           /\ Do([op |-> "edit", k |-> k]) /\ UNCHANGED <<place, file, solved>>
Save(k) == /\ Alive(k) /\ Alive("settings")
           /\ file' = [file EXCEPT ![k] = SaveV(k)]
           /\ Do([op |-> "save", k |-> k]) /\ UNCHANGED <<place, mem, solved>>
\* computing with the objects in memory (this panels the aircraft)
Compute == /\ \A k \in Kinds : Alive(k)
           /\ ~solved /\ solved' = TRUE
           /\ mem' = [mem EXCEPT !["aircraft"].panels = TRUE]
           /\ Do([op |-> "compute"]) /\ UNCHANGED <<place, file>>
Run == /\ Runs /\ Do([op |-> "run"]) /\ UNCHANGED <<place, file, mem, solved>>
Move == /\ place' = place + 1 /\ mem' = [ k \in Kinds |-> NoMem ] /\ solved' = FALSE
        /\ Runs /\ file["aircraft"].foil.k # "inside"
        /\ Do([op |-> "move"]) /\ UNCHANGED file
Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Kinds : Load(k) \/ Make(k) \/ Edit(k) \/ Save(k)
           \/ Compute \/ Run \/ Move
Spec == Init /\ [][Next]_vars
View == <<place, file, mem, solved, last, Len(hist)>>

RoundTrip == [][ last'.op = "save" => [file'[last'.k] EXCEPT !.foil = LoadedFoil(@)] = mem[last'.k] ]_vars
\* a saved aircraft can be loaded wherever the project is
Portable == file["aircraft"].foil.k \in {"rel", "name", "path", "inside"}
            /\ ((\E i \in DOMAIN hist : hist[i].op = "save" /\ hist[i].k = "aircraft") => file["aircraft"].foil.k # "inside")
OnlyTheFile == [][ last'.op # "save" => file' = file ]_vars
OnlyThatFile == [][ last'.op = "save" => \A k \in Kinds \ {last'.k} : file'[k] = file[k] ]_vars
SavingKeepsObjects == [][ last'.op = "save" => mem' = mem ]_vars
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist', foil |-> file["aircraft"].foil.k]))
=============================================================================
