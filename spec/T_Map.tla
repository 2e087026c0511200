-------------------------------- MODULE T_Map --------------------------------
(***************************************************************************)
(* Traces of runs over an aeroperformance map: map(n, lens, folders), then *)
(* for every point the results of the map and those of a run of that point *)
(* alone (RunLoop!EachOnItsOwn), with the point's result file.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt, TraceBase

VARIABLES tr, ln, st

Start(t) == [i |-> 0, n |-> 0]

Keys == {"Fx", "Fy", "Fz", "FD", "FC", "FL", "Mx", "My", "Mz",
         "Cx", "Cy", "Cz", "CD", "CC", "CL", "Cl", "Cm", "Cn"}
Group(k) == CASE k \in {"Fx", "Fy", "Fz", "FD", "FC", "FL"} -> {"Fx", "Fy", "Fz"}
              [] k \in {"Mx", "My", "Mz"} -> {"Mx", "My", "Mz"}
              [] k \in {"Cx", "Cy", "Cz", "CD", "CC", "CL"} -> {"Cx", "Cy", "Cz"}
              [] OTHER -> {"Cl", "Cm", "Cn"}
Largest(r, ks) == LET s == [ k \in ks |-> FAbs(r[k]) ]
                      m == CHOOSE k \in ks : \A j \in ks : FLe(s[j], s[k])
                  IN IF \A k \in ks : FFinite(r[k]) THEN s[m] ELSE "NaN"
\* equal up to rounding, relative to the largest component
Same(a, b) == \A k \in Keys : /\ Has(a, k) /\ Has(b, k)
                              /\ FNear(a[k], b[k], FMul("1e-9", Largest(b, Group(k))))

Clauses(s, e) ==
    CASE e.e = "map" -> Failing(<<
            <<"Accepted", e.outcome = "ok">>,
            <<"ListsHaveOneEntryPerPoint", DOMAIN e.lens = Keys /\ \A k \in Keys : e.lens[k] = e.n>>,
            <<"FoldersNumberedInOrder", e.folders = e.expected>> >>)
      [] e.e = "point" -> Failing(<<
            <<"InOrder", e.i = s.i>>,
            <<"SingleRunWorks", e.outcome = "ok">>,
            <<"SameAsSingleRun", e.outcome = "ok" => Same(e.map, e.single)>>,
            <<"FolderHoldsThisPoint", e.outcome = "ok" => Same(e.file, e.single)>>,
            <<"FolderStatesThisPoint", \A k \in DOMAIN e.given : Has(e.aero, k) /\ FClose(e.aero[k], e.given[k], "1e-9", FAdd("1e-9", FAbs(e.given[k])))>> >>)
      [] e.e = "end" -> Failing(<< <<"EveryPointAnalysed", s.i = s.n>> >>)
      [] OTHER -> {"UnknownEvent"}

Step(s, e) == CASE e.e = "map" -> [i |-> 0, n |-> e.n]
                [] e.e = "point" -> [s EXCEPT !.i = @ + 1]
                [] OTHER -> s
Detail(s, e) == e

INSTANCE TraceRun
=============================================================================
