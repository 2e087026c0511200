------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* A project on disk and the objects loaded from it.                       *)
(* An aircraft is a record of strings (numbers as they print, "" and 0 for *)
(* "not given"); an airfoil is [k, n]: its kind -- "name" (NACA...),       *)
(* "project" (a file of the project, n relative to it) or "path" (a file   *)
(* elsewhere) in memory; in the file "rel", "path" or "name".              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Kinds == {"aircraft", "state", "settings"}

\* ---------------------------------------------------------------- aircraft
\* root: the place of the project; an absolute path into it is a file of the project too
LoadedFoil(f) == CASE f.k = "rel" -> [k |-> "project", n |-> f.n]
                   [] f.k = "inside" -> [k |-> "project", n |-> f.n]
                   [] OTHER -> f
SavedFoil(f) == IF f.k = "project" THEN [k |-> "rel", n |-> f.n] ELSE f
MapFoils(ac, Op(_)) ==
    [ac EXCEPT !.wings = [ i \in DOMAIN @ |-> [@[i] EXCEPT !.segs =
        [ j \in DOMAIN @ |-> [@[j] EXCEPT !.fi = Op(@), !.fo = Op(@)] ]]]]
\* without a deflection of the mirrored side it moves like the other
WithMirror(c, sym) == IF sym # 0 /\ c.deflm = "" THEN [ x \in DOMAIN c |-> IF x = "deflm" THEN c.defl ELSE c[x] ] ELSE c
Complete(ac) ==
    [ac EXCEPT !.wings = [ i \in DOMAIN @ |-> [@[i] EXCEPT !.ctls = [ j \in DOMAIN @ |-> WithMirror(@[j], ac.wings[i].sym) ]]]]
LoadedAircraft(file) == Complete(MapFoils(file, LoadedFoil))
SavedAircraft(mem) == MapFoils(mem, SavedFoil)

\* b is a with the panel numbers that were not given filled in
NumOk(a, b) == IF a = 0 THEN b > 0 ELSE b = a
Panelled(a, b) ==
    /\ [a EXCEPT !.wings = <<>>] = [b EXCEPT !.wings = <<>>]
    /\ Len(a.wings) = Len(b.wings)
    /\ \A i \in DOMAIN a.wings :
          LET v == a.wings[i]  w == b.wings[i] IN
          /\ v.uid = w.uid /\ v.sym = w.sym /\ Len(v.segs) = Len(w.segs) /\ Len(v.ctls) = Len(w.ctls)
          /\ \A j \in DOMAIN v.segs :
                /\ NumOk(v.segs[j].num_c, w.segs[j].num_c) /\ NumOk(v.segs[j].num_s, w.segs[j].num_s)
                /\ \A x \in DOMAIN v.segs[j] \ {"num_c", "num_s"} : v.segs[j][x] = w.segs[j][x]
          /\ \A j \in DOMAIN v.ctls :
                /\ NumOk(v.ctls[j].num_c, w.ctls[j].num_c)
                /\ \A x \in DOMAIN v.ctls[j] \ {"num_c"} : v.ctls[j][x] = w.ctls[j][x]

\* ---------------------------------------------------------------- state
\* a function from parameters to lists; <<>> is "not given".  inp are the given parameters.
Given(st) == { p \in DOMAIN st : st[p] # <<>> }
SavedState(mem, inp) == [ p \in DOMAIN mem |-> IF p \in inp THEN mem[p] ELSE <<>> ]
Primary(st) == [ p \in {"airspeed", "density", "alpha", "beta", "rate_P", "rate_Q", "rate_R"} |-> st[p] ]
=============================================================================
