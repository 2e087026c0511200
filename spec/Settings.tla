------------------------------- MODULE Settings -------------------------------
(***************************************************************************)
(* Execution settings.  A settings dictionary is a function from dotted    *)
(* paths ("plot.results.opt") to values [t, v]: the type and the JSON text *)
(* of the value.  A path of a nested dictionary itself appears only when   *)
(* its value is no dictionary (or an empty one).                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Val(t, v) == [t |-> t, v |-> v]
Null == Val("null", "null")
False == Val("bool", "false")
True == Val("bool", "true")
EmptyList == Val("list", "[]")
Cp == Val("list", "[\"cp\"]")

PlotKinds == {"geometry", "lattice", "matrix_downwash", "results"}
SaveKinds == {"global", "panelwise", "aeroperformance", "matrix_system"}
SavePaths == { "save_results." \o k : k \in SaveKinds }
OptPaths == { "plot." \o k \o ".opt" : k \in PlotKinds }
FlagPaths == { "plot." \o k \o ".show" : k \in PlotKinds } \cup { "plot." \o k \o ".save" : k \in PlotKinds }
Nested == {"save_results", "plot"} \cup { "plot." \o k : k \in PlotKinds }
Hidden == {"_do_normal_rotations", "_deformation_check", "_epsilon"}
Top == {"aircraft", "state", "deformation", "vlm_autopanels_c", "vlm_autopanels_s"} \cup Hidden
Paths == Top \cup SavePaths \cup OptPaths \cup FlagPaths

\* the documented defaults
Default(p) == CASE p \in {"aircraft", "state", "deformation"} -> Null
                [] p \in {"vlm_autopanels_c", "vlm_autopanels_s"} -> Val("int", "4")
                [] p \in {"_do_normal_rotations", "_deformation_check"} -> True
                [] p = "_epsilon" -> Val("float", "1e-06")
                [] p \in OptPaths -> EmptyList
                [] OTHER -> False
Defaults == [ p \in Paths |-> Default(p) ]
TypesOf(p) == CASE p \in {"aircraft", "state"} -> {"str"}
                [] p = "deformation" -> {"str", "null"}
                \* a truth value counts as 0 or 1
                [] p \in {"vlm_autopanels_c", "vlm_autopanels_s"} -> {"int", "bool"}
                [] p = "_epsilon" -> {"float"}
                [] p \in OptPaths -> {"list"}
                [] OTHER -> {"bool"}

\* s updated by what d gives; the rest keeps its value
Merge(s, d) == [ p \in DOMAIN s \cup DOMAIN d |-> IF p \in DOMAIN d THEN d[p] ELSE s[p] ]
\* without a choice of result plots, cp is plotted
Completed(s) == IF s["plot.results.opt"].v = "[]" THEN [s EXCEPT !["plot.results.opt"] = Cp] ELSE s
Updated(s, d) == Completed(Merge(s, [ p \in { x \in DOMAIN d : ~(x \in Nested /\ d[x].t = "dict") } |-> d[p] ]))

\* every entry has a type that is allowed for it
Acceptable(s, d) ==
    LET u == Merge(s, d) IN
    /\ \A p \in DOMAIN d \cap Nested : d[p].t = "dict"           \* an empty dictionary gives nothing
    /\ \A p \in Paths : u[p].t \in TypesOf(p) \/ (p = "deformation" /\ u[p] = False)    \* false: no deformation
    /\ FLt("0.0", u["_epsilon"].v) /\ FLt(u["_epsilon"].v, "1.0")

\* what is written to the settings file: everything that is not hidden
\* (the recorder flattens; hidden are the paths with an underscore at the start of any component)
Visible(s, hidden) == [ p \in DOMAIN s \ hidden |-> s[p] ]
=============================================================================
