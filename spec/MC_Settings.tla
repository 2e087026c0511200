----------------------------- MODULE MC_Settings -----------------------------
(***************************************************************************)
(* Histories of operations on several settings objects, on the user's own  *)
(* dictionary (from which objects are made) and on the settings file.      *)
(* Objects have values: an operation on one changes this one only.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Objs

Keys == {"top", "hidden", "flag", "opt", "rest"}
\* abstract values: 0 is the default
Dflt == [ k \in Keys |-> 0 ]
DictKeys == {"top", "flag", "opt"}

VARIABLES obj,      \* object -> settings, or "-"
          dict,     \* the user's dictionary
          file,     \* the settings file, or "-"
          last, hist
vars == <<obj, dict, file, last, hist>>

NoObj == [ k \in {} |-> 0 ]
Alive(o) == DOMAIN obj[o] # {}

Init == /\ obj = [ o \in Objs |-> NoObj ]
        /\ dict = [ k \in DictKeys |-> 1 ]
        /\ file = NoObj /\ last = [op |-> "start"] /\ hist = <<>>
Do(op) == last' = op /\ hist' = Append(hist, op)
Fold(s, d) == [ k \in Keys |-> IF k \in DOMAIN d THEN d[k] ELSE s[k] ]

New(o, src) == /\ ~Alive(o)
               /\ obj' = [obj EXCEPT ![o] = IF src = "dict" THEN Fold(Dflt, dict) ELSE IF src = "file" THEN Fold(Dflt, file) ELSE Dflt]
               /\ (src = "file" => DOMAIN file # {})
               /\ Do([op |-> "new", o |-> o, src |-> src]) /\ UNCHANGED <<dict, file>>
Update(o, src) == /\ Alive(o)
                  /\ obj' = [obj EXCEPT ![o] = Fold(@, IF src = "dict" THEN dict ELSE [flag |-> 2])]
                  /\ Do([op |-> "update", o |-> o, src |-> src]) /\ UNCHANGED <<dict, file>>
Mutate(o, k) == /\ Alive(o)
                /\ obj' = [obj EXCEPT ![o][k] = 3]
                /\ Do([op |-> "mutate", o |-> o, key |-> k]) /\ UNCHANGED <<dict, file>>
MutDict(k) == /\ dict' = [dict EXCEPT ![k] = 4]
              /\ Do([op |-> "mutdict", key |-> k]) /\ UNCHANGED <<obj, file>>
Save(o) == /\ Alive(o)
           /\ file' = [ k \in Keys \ {"hidden"} |-> obj[o][k] ]
           /\ Do([op |-> "save", o |-> o]) /\ UNCHANGED <<obj, dict>>
Refused(o) == /\ Alive(o)
              /\ obj' = [obj EXCEPT ![o] = NoObj]          \* the user drops it
              /\ Do([op |-> "refused", o |-> o]) /\ UNCHANGED <<dict, file>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E o \in Objs : \/ \E s \in {"none", "dict", "file"} : New(o, s)
                              \/ \E s \in {"dict", "small"} : Update(o, s)
                              \/ \E k \in {"top", "flag", "opt", "hidden"} : Mutate(o, k)
                              \/ Save(o) \/ Refused(o)
           \/ \E k \in DictKeys : MutDict(k)
Spec == Init /\ [][Next]_vars
View == <<obj, dict, file, last, Len(hist)>>

Independent == [][ \A o \in Objs : (~("o" \in DOMAIN last') \/ last'.o # o) => obj'[o] = obj[o] ]_vars
SavingChangesNothing == [][ last'.op = "save" => (obj' = obj /\ dict' = dict) ]_vars
DefaultsStay == [][ (last'.op = "new" /\ last'.src = "none") => obj'[last'.o] = Dflt ]_vars
DictOnlyByUser == [][ last'.op # "mutdict" => dict' = dict ]_vars
NothingLost == [][ (last'.op = "new" /\ last'.src = "file") => \A k \in Keys \ {"hidden"} : obj'[last'.o][k] = file[k] ]_vars
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))
=============================================================================
