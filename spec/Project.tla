------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* The life cycle of projects in one working directory, as the user sees   *)
(* it from the command line.  A slot is a name in the working directory:   *)
(* "pytornado" (what a new project is called) and "other" (where the user  *)
(* may move it).                                                           *)
(*                                                                         *)
(*   kind   "none", "file", "folder" (the user's own), "project"           *)
(*   input  version of the input files          log    there is a log file *)
(*   out    _results and _plots are there                                  *)
(*   junk   places into which the user put files of his own                *)
(*   good   "yes", "model" (the aircraft or state is refused) or           *)
(*          "settings" (the settings file is refused)                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == {"pytornado", "other"}
Places == {"root", "aircraft", "results", "plots"}
OutPlaces == {"results", "plots"}
NoSlot == [kind |-> "none", input |-> 0, log |-> FALSE, out |-> FALSE, junk |-> {}, good |-> "yes"]
Fresh(v) == [NoSlot EXCEPT !.kind = "project", !.input = v, !.out = TRUE]

\* what the command line tool does: [s |-> the slots afterwards, ok |-> exit status 0]
Create(S, known) ==
    IF S["pytornado"].kind # "none" \/ ~known THEN [s |-> S, ok |-> FALSE]
    ELSE [s |-> [S EXCEPT !["pytornado"] = Fresh(1)], ok |-> TRUE]
Cleaned(p) == [p EXCEPT !.out = FALSE, !.junk = @ \ OutPlaces]
RunIt(p) == IF p.good = "yes" THEN [p EXCEPT !.log = TRUE, !.out = TRUE]
            ELSE [p EXCEPT !.log = TRUE]
Run(S, sl, clean) ==
    LET p == S[sl] IN
    IF p.kind # "project" \/ p.good = "settings" THEN [s |-> S, ok |-> FALSE]
    ELSE CASE clean = "only" -> [s |-> [S EXCEPT ![sl] = Cleaned(p)], ok |-> TRUE]
           [] clean = "yes" -> [s |-> [S EXCEPT ![sl] = RunIt(Cleaned(p))], ok |-> p.good = "yes"]
           [] clean = "no" -> [s |-> [S EXCEPT ![sl] = RunIt(p)], ok |-> p.good = "yes"]

Tool(S, c) ==
    CASE c.cmd = "example" -> Create(S, TRUE)
      [] c.cmd = "db" -> Create(S, c.known)
      [] c.cmd = "run" -> Run(S, c.slot, c.clean)
      [] c.cmd = "bad" -> [s |-> S, ok |-> FALSE]        \* an invalid combination of arguments
      [] c.cmd = "info" -> [s |-> S, ok |-> TRUE]        \* help, list of the database

\* what the user does in between
User(S, c) ==
    CASE c.cmd = "put" -> [S EXCEPT ![c.slot].junk = @ \cup {c.place}]
      [] c.cmd = "edit" -> [S EXCEPT ![c.slot].input = 1 - @]
      [] c.cmd = "break" -> [S EXCEPT ![c.slot].good = c.how]
      [] c.cmd = "repair" -> [S EXCEPT ![c.slot].good = "yes"]
      [] c.cmd = "occupy" -> [S EXCEPT !["pytornado"] = [NoSlot EXCEPT !.kind = c.kind]]
      [] c.cmd = "move" -> [S EXCEPT !["other"] = S["pytornado"], !["pytornado"] = NoSlot]

ToolCommands ==
    {[cmd |-> "example"], [cmd |-> "bad"], [cmd |-> "info"]}
    \cup [cmd : {"db"}, known : BOOLEAN]
    \cup [cmd : {"run"}, slot : Slots, clean : {"no", "yes", "only"}]
UserCommands(S) ==
    {[cmd |-> "put", slot |-> sl, place |-> pl] : sl \in { x \in Slots : S[x].kind = "project" }, pl \in Places}
    \cup {[cmd |-> "edit", slot |-> sl] : sl \in { x \in Slots : S[x].kind = "project" /\ S[x].good = "yes" }}
    \cup {[cmd |-> "break", slot |-> sl, how |-> h] : sl \in { x \in Slots : S[x].kind = "project" /\ S[x].good = "yes" }, h \in {"model", "settings"}}
    \cup {[cmd |-> "repair", slot |-> sl] : sl \in { x \in Slots : S[x].kind = "project" /\ S[x].good # "yes" }}
    \cup (IF S["pytornado"].kind = "none" THEN [cmd : {"occupy"}, kind : {"file", "folder"}] ELSE {})
    \cup (IF S["pytornado"].kind = "project" /\ S["other"].kind = "none" THEN {[cmd |-> "move"]} ELSE {})
IsTool(c) == c.cmd \in {"example", "db", "run", "bad", "info"}
=============================================================================
