------------------------------ MODULE MC_Building -----------------------------
(***************************************************************************)
(* Building two aircraft at the same time.                                 *)
(***************************************************************************)
EXTENDS Building, Json

CONSTANTS MaxLen, Acs, MaxWings, Uids

V(t, v) == [t |-> t, v |-> v]
UidPool == { V("str", u) : u \in Uids } \cup {V("str", ""), V("none", ""), V("int", "5")}
SymPool == {V("int", "2"), V("int", "3"), V("int", "4"), V("float", "1.5")}
TypePool == {V("str", "flap"), V("str", "slat"), V("str", "flaps"), V("none", "")}

VARIABLES m, last, hist
vars == <<m, last, hist>>
Init == m = [ a \in Acs |-> NewModel ] /\ last = [op |-> "start", good |-> TRUE, a |-> ""] /\ hist = <<>>

Do(a, e) == LET ev == e @@ [a |-> a] IN
            /\ m' = IF Good(m[a], e) THEN [m EXCEPT ![a] = After(@, e)] ELSE m
            /\ last' = [op |-> e.op, good |-> Good(m[a], e), a |-> a]
            /\ hist' = Append(hist, ev)
Next == /\ Len(hist) < MaxLen
        /\ \E a \in Acs :
           \/ Len(m[a].wings) < MaxWings /\ \E v \in UidPool : Do(a, [op |-> "wing", v |-> v])
           \/ \E v \in {V("str", "x"), V("int", "5")} : Do(a, [op |-> "name", v |-> v])
           \/ \E w \in DOMAIN m[a].wings :
              \/ \E o \in {"segment", "control"}, v \in UidPool : Do(a, [op |-> o, w |-> w, v |-> v])
              \/ \E v \in SymPool : Do(a, [op |-> "symmetry", w |-> w, v |-> v])
              \/ \E c \in DOMAIN m[a].wings[w].ctls, v \in TypePool : Do(a, [op |-> "type", w |-> w, c |-> c, v |-> v])
Spec == Init /\ [][Next]_vars
View == <<m, last, Len(hist)>>
PrintStep == PrintT("@@CASE@@" \o ToJson([hist |-> hist']))

Distinct(list) == \A i, j \in DOMAIN list : list[i].uid = list[j].uid => i = j
UidsUnique == \A a \in Acs : /\ Distinct(m[a].wings)
                             /\ \A w \in DOMAIN m[a].wings : Distinct(m[a].wings[w].segs) /\ Distinct(m[a].wings[w].ctls)
NonEmpty == \A a \in Acs : \A w \in DOMAIN m[a].wings :
    m[a].wings[w].uid # "" /\ \A i \in DOMAIN m[a].wings[w].segs : m[a].wings[w].segs[i].uid # ""
Flags == \A a \in Acs : \A w \in DOMAIN m[a].wings : m[a].wings[w].sym \in {"0", "1", "2", "3"}
RefusedChangesNothing == [][ ~last'.good => m' = m ]_vars
Independent == [][ \A a \in Acs : a # last'.a => m'[a] = m[a] ]_vars
\* nothing is lost or reordered: the walk before is a prefix, wing by wing
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i].uid = t[i].uid
OnlyGrows == [][ \A a \in Acs : /\ Prefix(m[a].wings, m'[a].wings)
                    /\ \A w \in DOMAIN m[a].wings : Prefix(m[a].wings[w].segs, m'[a].wings[w].segs) /\ Prefix(m[a].wings[w].ctls, m'[a].wings[w].ctls) ]_vars
\* walks visit everything once
WalksComplete == \A a \in Acs :
    /\ Len(WalkSegments(m[a])) = Cardinality({ <<w, i>> \in (DOMAIN m[a].wings) \X (1..MaxLen) : i \in DOMAIN m[a].wings[w].segs })
    /\ \A i, j \in DOMAIN WalkSegments(m[a]) : WalkSegments(m[a])[i] = WalkSegments(m[a])[j] => i = j
    /\ \A i, j \in DOMAIN WalkControls(m[a]) : WalkControls(m[a])[i] = WalkControls(m[a])[j] => i = j
=============================================================================
