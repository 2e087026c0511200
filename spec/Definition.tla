------------------------------ MODULE Definition ------------------------------
(***************************************************************************)
(* Aircraft files.  A JSON value is a record [t, v, s, d]: its type, and   *)
(* the value v (numbers as strings), the items s of a list, the entries d  *)
(* of an object.                                                           *)
(* Findings(doc) is the set of objections to a file, pairs of              *)
(*   "bad"   the file must be refused when it is loaded,                   *)
(*   "late"  no analysis may succeed with it,                              *)
(*   "open"  left open: it may be accepted or refused,                     *)
(* and the reason.  Without objections the file must be accepted.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Nothing == [ x \in {} |-> {} ]
J(t, v) == [t |-> t, v |-> v, s |-> <<>>, d |-> Nothing]
Missing == J("missing", "")
Has(d, k) == d.t = "dict" /\ k \in DOMAIN d.d
Get(d, k) == IF Has(d, k) THEN d.d[k] ELSE Missing
NotGiven(v) == v.t \in {"missing", "none"}
IsNum(v) == v.t \in {"int", "float"}
IsStr(v) == v.t = "str"
Bad(c, why) == IF c THEN {<<"bad", why>>} ELSE {}
Late(c, why) == IF c THEN {<<"late", why>>} ELSE {}
Open(c, why) == IF c THEN {<<"open", why>>} ELSE {}
Falsy(v) == \/ v.t \in {"missing", "none"}
            \/ v.t = "dict" /\ DOMAIN v.d = {}
            \/ v.t = "list" /\ v.s = <<>>
            \/ v.t = "str" /\ v.v = ""
            \/ v.t = "bool" /\ v.v = "False"
            \/ IsNum(v) /\ FEq(v.v, "0")

\* ------------------------------------------------------------ single values
Positive(v, why) == IF v.t = "bool" THEN Open(TRUE, why) ELSE Bad(~IsNum(v) \/ ~FLt("0", v.v), why)
\* three coordinates
Point(v, why) ==
    IF v.t # "list" THEN Bad(TRUE, why)
    ELSE IF Len(v.s) # 3 \/ \E i \in DOMAIN v.s : v.s[i].t \notin {"int", "float", "bool", "nan"} THEN Bad(TRUE, why)
    ELSE Open(\E i \in DOMAIN v.s : ~IsNum(v.s[i]), why)
Coordinates(v) == << v.s[1].v, v.s[2].v, v.s[3].v >>
\* a real number between lo and hi; numbers written without a decimal point are left open
Range(v, lo, hi, why) ==
    IF v.t = "float" THEN Bad(~(FLe(lo, v.v) /\ FLe(v.v, hi)), why)
    ELSE IF v.t = "int" THEN IF FLe(lo, v.v) /\ FLe(v.v, hi) THEN Open(TRUE, why) ELSE Bad(TRUE, why)
    ELSE Bad(TRUE, why)
Angle(v, why) == IF v.t = "bool" THEN Open(TRUE, why)
                 ELSE Bad(~IsNum(v) \/ ~(FLe("-90", v.v) /\ FLe(v.v, "90")), why)
Panel(v, why) == Bad(~NotGiven(v) /\ ~(v.t = "int" /\ FLt("0", v.v)), why)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNaca(s) == /\ Len(s) = 8
             /\ SubSeq(s, 1, 4) \in {"NACA", "naca", "Naca"}
             /\ \A i \in 5..8 : SubSeq(s, i, i) \in Digits
Foil(v, files, why) == Bad(~(IsStr(v) /\ (v.v \in files \/ IsNaca(v.v))), why)

\* uids of a list of objects: non-empty strings, all different
Uid(v, why) == Bad(~(IsStr(v) /\ Len(v.v) > 0), why)
Uids(list, why) ==
    UNION { Uid(Get(list[i], "uid"), why) : i \in DOMAIN list }
    \cup Bad(\E i, j \in DOMAIN list : i < j /\ Get(list[i], "uid") = Get(list[j], "uid"), why \o " twice")

\* ------------------------------------------------------------------ objects
Refs(r) ==
    IF r.t # "dict" THEN Bad(TRUE, "refs")
    ELSE UNION { Positive(Get(r, k), k) : k \in {"area", "chord", "span"} }
         \cup Point(Get(r, "gcenter"), "gcenter") \cup Point(Get(r, "rcenter"), "rcenter")
         \cup Bad(~NotGiven(Get(r, "comment")) /\ ~IsStr(Get(r, "comment")), "comment")

Angles90 == {"inner_alpha", "outer_alpha", "inner_beta", "outer_beta", "sweep"}
Lengths == {"inner_chord", "outer_chord", "span"}
Geometry(g) ==
    IF Falsy(g) THEN {} ELSE IF g.t # "dict" THEN Bad(TRUE, "geometry")
    ELSE UNION { IF NotGiven(g.d[k]) THEN {}
                 ELSE IF k \in Angles90 THEN Range(g.d[k], "-90", "90", k)
                 ELSE IF k = "dihedral" THEN Range(g.d[k], "-180", "180", k)
                 ELSE IF k \in {"inner_axis", "outer_axis"} THEN Range(g.d[k], "0", "1", k)
                 ELSE IF k \in Lengths THEN IF g.d[k].t \in {"int", "nan"} THEN Open(TRUE, k) ELSE Bad(g.d[k].t # "float", k)
                 ELSE Open(TRUE, k) : k \in DOMAIN g.d }

PanelEntries(p, keys) ==
    IF Falsy(p) THEN {} ELSE IF p.t # "dict" THEN Bad(TRUE, "panels")
    ELSE UNION { Panel(Get(p, k), k) : k \in keys }

\* Corner points: all of them, or a part of them and the measures of the segment which determine the others:
\* one corner and all measures, the inner edge without the inner ones, the outer edge without the outer ones
Corners == {"a", "b", "c", "d"}
InnerMeasures == {"inner_chord", "inner_alpha", "inner_beta"}
OuterMeasures == {"outer_chord", "outer_alpha", "outer_beta"}
SpanMeasures == {"span", "sweep", "dihedral"}
GivenCorners(s) == { k \in Corners : ~NotGiven(Get(Get(s, "vertices"), k)) }
AllCorners(s) == GivenCorners(s) = Corners
Determined(s) ==
    LET given == GivenCorners(s)  g == Get(s, "geometry")
        has(K) == \A k \in K : ~NotGiven(Get(g, k))
    IN \/ given = Corners
       \/ Cardinality(given) = 1 /\ has(InnerMeasures \cup OuterMeasures \cup SpanMeasures)
       \/ given = {"a", "d"} /\ has(OuterMeasures \cup SpanMeasures)
       \/ given = {"b", "c"} /\ has(InnerMeasures \cup SpanMeasures)
\* measures of an ordinary segment: what the others mean is left open
Within(v, lo, hi) == NotGiven(v) \/ (v.t = "float" /\ FLt(lo, v.v) /\ FLt(v.v, hi))
Ordinary(s) ==
    LET g == Get(s, "geometry")  v == Get(s, "vertices")
        size == IF GivenCorners(s) = {"a", "d"} THEN VNorm(VSub(Coordinates(v.d.d), Coordinates(v.d.a)))
                ELSE IF GivenCorners(s) = {"b", "c"} THEN VNorm(VSub(Coordinates(v.d.c), Coordinates(v.d.b))) ELSE "0.01"
    IN /\ \A k \in {"inner_alpha", "outer_alpha", "inner_beta", "outer_beta", "sweep", "dihedral"} : Within(Get(g, k), "-80", "80")
       /\ \A k \in Lengths : Within(Get(g, k), "0.001", "1e6")
       /\ FLt("1e-3", size)
       \* the edges are not so long that their twist exceeds the span
       /\ LET c(k) == IF NotGiven(Get(g, k)) THEN size ELSE Get(g, k).v IN
          FLt(FAdd(c("inner_chord"), c("outer_chord")), Get(g, "span").v)

Segment(s, files) ==
    IF s.t # "dict" THEN Bad(TRUE, "segment")
    ELSE LET v == Get(s, "vertices")  a == Get(s, "airfoils")
             points == IF v.t # "dict" THEN {} ELSE UNION { Point(v.d[k], "vertex " \o k) : k \in GivenCorners(s) }
         IN
         (IF v.t # "dict" THEN Bad(TRUE, "vertices")
          ELSE points
               \cup Bad(~Determined(s), "corners missing")
               \cup (IF points = {} /\ Determined(s) /\ ~AllCorners(s) THEN Open(~Ordinary(s), "measures") ELSE {})
               \cup Open(DOMAIN v.d \ Corners # {}, "other vertices"))
         \cup (IF a.t # "dict" THEN Bad(TRUE, "airfoils")
               ELSE Foil(Get(a, "inner"), files, "inner airfoil") \cup Foil(Get(a, "outer"), files, "outer airfoil")
                    \cup Open(DOMAIN a.d \ {"inner", "outer"} # {}, "other airfoils"))
         \cup Geometry(Get(s, "geometry"))
         \cup PanelEntries(Get(s, "panels"), {"num_c", "num_s"})

SymZero(y) == y.t = "int" /\ FEq(y.v, "0")
Symmetry(y) == IF y.t = "int" THEN Bad(\A k \in {"0", "1", "2", "3"} : ~FEq(y.v, k), "symmetry")
               ELSE IF y.t = "float" THEN IF \E k \in {"0", "1", "2", "3"} : FEq(y.v, k) THEN Open(TRUE, "symmetry") ELSE Bad(TRUE, "symmetry")
               ELSE IF y.t = "bool" THEN Open(TRUE, "symmetry") ELSE Bad(TRUE, "symmetry")

Position(list, v) == CHOOSE i \in DOMAIN list : Get(list[i], "uid") = v
\* the symmetry y of the wing and its segments matter
Control(c, y, segs) ==
    IF c.t # "dict" THEN Bad(TRUE, "control")
    ELSE LET u == Get(c, "segment_uid")  r == Get(c, "rel_vertices")  h == Get(c, "rel_hinge_vertices")
             si == Get(u, "inner")  so == Get(u, "outer")
             known(v) == IsStr(v) /\ \E i \in DOMAIN segs : Get(segs[i], "uid") = v
             same == si = so \/ (NotGiven(si) /\ NotGiven(so))
             ei == Get(r, "eta_inner")  eo == Get(r, "eta_outer")
         IN Bad(~(IsStr(Get(c, "device_type")) /\ Get(c, "device_type").v \in {"slat", "flap"}), "device_type")
            \cup Angle(Get(c, "deflection"), "deflection")
            \cup (LET m == Get(c, "deflection_mirror") IN
                  IF NotGiven(m) \/ SymZero(y) THEN {}
                  ELSE IF y.t = "int" THEN Angle(m, "deflection_mirror") ELSE Open(Angle(m, "deflection_mirror") # {}, "deflection_mirror"))
            \cup (IF u.t # "dict" THEN Bad(TRUE, "segment_uid")
                  ELSE UNION { Bad(~known(v), "segment_uid") : v \in {si, so} }
                       \cup (IF known(si) /\ known(so) THEN Open(Position(segs, si) > Position(segs, so), "order of segments") ELSE {}))
            \cup (IF r.t # "dict" THEN Bad(TRUE, "rel_vertices")
                  ELSE UNION { LET v == Get(r, k) IN IF NotGiven(v) THEN Late(TRUE, k) ELSE Range(v, "0", "1", k)
                               : k \in {"eta_inner", "eta_outer", "xsi_inner", "xsi_outer"} })
            \cup (IF same /\ IsNum(ei) /\ IsNum(eo) THEN Bad(FLe(eo.v, ei.v), "eta")
                  ELSE IF same THEN Bad(NotGiven(ei) \/ NotGiven(eo), "eta") ELSE {})
            \cup (IF h.t # "dict" THEN Bad(TRUE, "rel_hinge_vertices")
                  ELSE UNION { LET v == Get(h, k) IN IF NotGiven(v) THEN {} ELSE Range(v, "0", "1", "hinge " \o k) : k \in {"xsi_inner", "xsi_outer"} })
            \cup PanelEntries(Get(c, "panels"), {"num_c"})

Listed(v) == v.t = "list"
Items(v) == IF Listed(v) THEN v.s ELSE <<>>
EmptyOrBad(v, why) == IF Listed(v) THEN Open(v.s = <<>>, why)
                      ELSE IF Falsy(v) /\ ~NotGiven(v) /\ v.t \in {"dict", "str"} THEN Open(TRUE, why) ELSE Bad(TRUE, why)

Wing(w, files) ==
    IF w.t # "dict" THEN Bad(TRUE, "wing")
    ELSE LET segs == Items(Get(w, "segments"))  y == Get(w, "symmetry")  c == Get(w, "controls")  ctls == Items(c) IN
         Symmetry(y)
         \cup EmptyOrBad(Get(w, "segments"), "segments")
         \cup Uids(segs, "segment uid")
         \cup UNION { Segment(segs[i], files) : i \in DOMAIN segs }
         \cup (IF c.t = "missing" \/ Listed(c) THEN {} ELSE IF Falsy(c) /\ c.t \in {"dict", "str"} THEN Open(TRUE, "controls") ELSE Bad(TRUE, "controls"))
         \cup Uids(ctls, "control uid")
         \cup UNION { Control(ctls[i], y, segs) : i \in DOMAIN ctls }

Findings(doc, files) ==
    IF doc.t # "dict" THEN Bad(TRUE, "file")
    ELSE LET ws == Items(Get(doc, "wings")) IN
         Bad(~IsStr(Get(doc, "uid")), "uid")
         \cup Refs(Get(doc, "refs"))
         \cup EmptyOrBad(Get(doc, "wings"), "wings")
         \cup Uids(ws, "wing uid")
         \cup UNION { Wing(ws[i], files) : i \in DOMAIN ws }

Kinds(f) == { x[1] : x \in f }
\* a surely refused file, a surely accepted one
Verdict(f) == IF "bad" \in Kinds(f) THEN "bad" ELSE IF "open" \in Kinds(f) THEN "open" ELSE IF "late" \in Kinds(f) THEN "late" ELSE "ok"

\* ------------------------------------------------------------ taken as given
\* m: the model: uid, refs, wings with uid, sym, segs, ctls; "" and 0 for values that are not given
SamePoint(v, p) == Len(p) = 3 /\ \A i \in 1..3 : FEq(v.s[i].v, p[i])
ClosePoint(v, p) == Len(p) = 3 /\ \A i \in 1..3 : FLe(FAbs(FSub(v.s[i].v, p[i])), FMul("1e-9", FAdd("1.0", FAbs(p[i]))))
SameNum(v, x) == IF NotGiven(v) THEN x = "" ELSE x # "" /\ FEq(v.v, x)
SameText(v, x) == IF NotGiven(v) THEN x = "" ELSE v.v = x
SameCount(v, n) == IF NotGiven(v) THEN n = "" ELSE FEq(v.v, n)
GivenSegment(s, o) ==
    /\ SameText(Get(s, "uid"), o.uid)
    /\ \A k \in GivenCorners(s) : IF AllCorners(s) THEN SamePoint(Get(Get(s, "vertices"), k), o[k]) ELSE ClosePoint(Get(Get(s, "vertices"), k), o[k])
    /\ SameText(Get(Get(s, "airfoils"), "inner"), o.fi) /\ SameText(Get(Get(s, "airfoils"), "outer"), o.fo)
    /\ SameCount(Get(Get(s, "panels"), "num_c"), o.num_c) /\ SameCount(Get(Get(s, "panels"), "num_s"), o.num_s)
GivenControl(c, y, o) ==
    LET m == Get(c, "deflection_mirror")  d == Get(c, "deflection") IN
    /\ SameText(Get(c, "uid"), o.u) /\ SameText(Get(c, "device_type"), o.type)
    /\ SameNum(d, o.defl)
    /\ SymZero(y) \/ SameNum(IF NotGiven(m) THEN d ELSE m, o.deflm)
    /\ SameText(Get(Get(c, "segment_uid"), "inner"), o.si) /\ SameText(Get(Get(c, "segment_uid"), "outer"), o.so)
    /\ \A k \in {"eta_inner", "eta_outer", "xsi_inner", "xsi_outer"} : SameNum(Get(Get(c, "rel_vertices"), k), o[k])
    /\ SameNum(Get(Get(c, "rel_hinge_vertices"), "xsi_inner"), o.h_xsi_inner)
    /\ SameNum(Get(Get(c, "rel_hinge_vertices"), "xsi_outer"), o.h_xsi_outer)
    /\ SameCount(Get(Get(c, "panels"), "num_c"), o.num_c)
GivenWing(w, o) ==
    LET segs == Items(Get(w, "segments"))  ctls == Items(Get(w, "controls")) IN
    /\ SameText(Get(w, "uid"), o.uid) /\ SameNum(Get(w, "symmetry"), o.sym)
    /\ Len(o.segs) = Len(segs) /\ \A i \in DOMAIN segs : GivenSegment(segs[i], o.segs[i])
    /\ Len(o.ctls) = Len(ctls) /\ \A i \in DOMAIN ctls : GivenControl(ctls[i], Get(w, "symmetry"), o.ctls[i])
AsGiven(doc, m) ==
    LET ws == Items(Get(doc, "wings"))  r == Get(doc, "refs") IN
    /\ SameText(Get(doc, "uid"), m.uid)
    /\ \A k \in {"area", "chord", "span"} : SameNum(Get(r, k), m.refs[k])
    /\ \A k \in {"gcenter", "rcenter"} : SamePoint(Get(r, k), m.refs[k])
    /\ SameText(Get(r, "comment"), m.comment)
    /\ Len(m.wings) = Len(ws) /\ \A i \in DOMAIN ws : GivenWing(ws[i], m.wings[i])
=============================================================================
