--------------------------- MODULE MC_Deformation ---------------------------
(***************************************************************************)
(* Which half of which wing a deformation file moves: every file over the  *)
(* given names.                                                            *)
(***************************************************************************)
EXTENDS Deformation, Json

CONSTANTS Uids, Names, Ignored, MaxNames

VARIABLES file, moved, outcome
vars == <<file, moved, outcome>>
Halves == Uids \X BOOLEAN

Init == /\ file \in { f \in SUBSET Names : Cardinality(f) <= MaxNames }
        /\ moved = {} /\ outcome = "none"
Load == /\ outcome = "none"
        /\ IF Known(file, Ignored, Uids)
           THEN /\ outcome' = "ok"
                /\ moved' = { h \in Halves : FieldOf([ n \in file \ Ignored |-> <<n>> ], h[1], h[2]) # <<>> }
           ELSE outcome' = "refused" /\ UNCHANGED moved
        /\ UNCHANGED file
        /\ PrintT("@@CASE@@" \o ToJson([file |-> file, outcome |-> outcome']))
Spec == Init /\ [][Load]_vars

\* a half moves exactly if it is named
Exactly == outcome = "ok" => \A h \in Halves : (h \in moved) = (FieldName(h[1], h[2]) \in file)
\* a name moves one half at most
OneHalf == \A h, g \in Halves : FieldName(h[1], h[2]) = FieldName(g[1], g[2]) => h = g
IgnoredSayNothing == outcome # "none" => (outcome = "ok") = Known(file \ Ignored, {}, Uids)
=============================================================================
