------------------------------- MODULE Building -------------------------------
(***************************************************************************)
(* Aircraft models built step by step.  A model is a sequence of wings     *)
(* [uid, sym, segs, ctls]; segs a sequence of [uid, strips] (strips a      *)
(* sequence of subarea names per strip), ctls a sequence of [uid, type].   *)
(* An operation that is refused leaves every model as it was.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- values
\* a value is [t, v]: type and text
GoodUid(x) == x.t = "str" /\ x.v # ""
NewUid(x, list) == GoodUid(x) /\ \A i \in DOMAIN list : list[i].uid # x.v
GoodSym(x) == x.t = "int" /\ x.v \in {"0", "1", "2", "3"}
\* numbers that equal a flag may be taken for it
OpenSym(x) == x.t \in {"bool", "float"} /\ x.v \in {"True", "False", "0.0", "1.0", "2.0", "3.0"}
GoodType(x) == x.t = "str" /\ x.v \in {"slat", "flap"}

NewWing(x) == [uid |-> x.v, sym |-> "0", segs |-> <<>>, ctls |-> <<>>]
NewSegment(x) == [uid |-> x.v]
NewControl(x) == [uid |-> x.v, type |-> ""]

Good(m, e) ==
    CASE e.op = "wing" -> NewUid(e.v, m.wings)
      [] e.op = "segment" -> NewUid(e.v, m.wings[e.w].segs)
      [] e.op = "control" -> NewUid(e.v, m.wings[e.w].ctls)
      [] e.op = "symmetry" -> GoodSym(e.v)
      [] e.op = "type" -> GoodType(e.v)
      [] e.op = "name" -> e.v.t = "str"
After(m, e) ==
    CASE e.op = "wing" -> [m EXCEPT !.wings = Append(@, NewWing(e.v))]
      [] e.op = "segment" -> [m EXCEPT !.wings[e.w].segs = Append(@, NewSegment(e.v))]
      [] e.op = "control" -> [m EXCEPT !.wings[e.w].ctls = Append(@, NewControl(e.v))]
      [] e.op = "symmetry" -> [m EXCEPT !.wings[e.w].sym = e.v.v]
      [] e.op = "type" -> [m EXCEPT !.wings[e.w].ctls[e.c].type = e.v.v]
      [] e.op = "name" -> [m EXCEPT !.uid = e.v.v]
NewModel == [uid |-> "aircraft", wings |-> <<>>]

\* ------------------------------------------------------------------ walks
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
WalkWings(m) == [ i \in DOMAIN m.wings |-> << <<i - 1, m.wings[i].uid>> >> ]
\* each part with its number and name, then the same of its parents
WalkSegments(m) == Flat([ i \in DOMAIN m.wings |->
    [ j \in DOMAIN m.wings[i].segs |-> << <<j - 1, m.wings[i].segs[j].uid>>, <<i - 1, m.wings[i].uid>> >> ] ])
WalkControls(m) == Flat([ i \in DOMAIN m.wings |->
    [ j \in DOMAIN m.wings[i].ctls |-> << <<j - 1, m.wings[i].ctls[j].uid>>, <<i - 1, m.wings[i].uid>> >> ] ])
=============================================================================
