------------------------------ MODULE MC_Project ------------------------------
(***************************************************************************)
(* All histories of commands and user actions.  hist is only remembered to *)
(* print behaviours; the state that is explored is slots (and the command  *)
(* that led there, for the action properties).                             *)
(***************************************************************************)
EXTENDS Project, Json

CONSTANTS MaxLen

VARIABLES slots, last, hist
vars == <<slots, last, hist>>

Init == /\ slots = [ x \in Slots |-> NoSlot ]
        /\ last = [cmd |-> "start"] /\ hist = <<>>
ToolStep == \E c \in ToolCommands : LET r == Tool(slots, c) IN
              /\ slots' = r.s /\ last' = [c |-> c, ok |-> r.ok, tool |-> TRUE] /\ hist' = Append(hist, c)
UserStep == \E c \in UserCommands(slots) :
              /\ slots' = User(slots, c) /\ last' = [c |-> c, ok |-> TRUE, tool |-> FALSE] /\ hist' = Append(hist, c)
Next == Len(hist) < MaxLen /\ (ToolStep \/ UserStep)
Spec == Init /\ [][Next]_vars
View == <<slots, Len(hist)>>
ViewLast == <<slots, last, Len(hist)>>

\* the tool never changes input files or what the user has put anywhere, except for what lies in
\* the output folders when it is told to clean
TypeOK == \A x \in Slots : slots[x].junk \subseteq Places
NeverTouchesOthers ==
    [][ last'.tool => \A x \in Slots :
          /\ slots[x].kind # "none" => (slots'[x].kind = slots[x].kind /\ slots'[x].input = slots[x].input /\ slots'[x].good = slots[x].good)
          /\ slots[x].junk \ OutPlaces \subseteq slots'[x].junk
          /\ (last'.c.cmd # "run" \/ last'.c.slot # x \/ last'.c.clean = "no") => slots'[x].junk = slots[x].junk
          /\ slots[x].log => slots'[x].log ]_vars
RefusedHasNoEffect == [][ (last'.tool /\ ~last'.ok /\ last'.c.cmd # "run") => slots' = slots ]_vars
CleanRemovesOutputs == [][ (last'.tool /\ last'.ok /\ last'.c.cmd = "run" /\ last'.c.clean = "only")
                             => (~slots'[last'.c.slot].out /\ slots'[last'.c.slot].junk \cap OutPlaces = {}) ]_vars
CreatedRuns == [][ (last'.tool /\ last'.ok /\ last'.c.cmd \in {"example", "db"}) => Run(slots', "pytornado", "no").ok ]_vars
\* one behaviour for every (state, command)
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))
=============================================================================
