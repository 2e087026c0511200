----------------------------- MODULE MC_Definition ----------------------------
(***************************************************************************)
(* Aircraft files with up to MaxChanges entries changed: what is changed   *)
(* is printed with the verdict for the code to be tried with.              *)
(***************************************************************************)
EXTENDS Definition, Json

CONSTANTS MaxChanges, Wide, Links

N(s) == J("float", s)
I(s) == J("int", s)
S(s) == J("str", s)
B(s) == J("bool", s)
L(s) == [J("list", "") EXCEPT !.s = s]
D(r) == [J("dict", "") EXCEPT !.d = r]
None == J("none", "")
NaN == J("nan", "")
P(x, y, z) == L(<<N(x), N(y), N(z)>>)

Seg(u, y0, y1) == D([uid |-> S(u),
    vertices |-> D([a |-> P("0.0", y0, "0.0"), b |-> P("0.2", y1, "0.1"), c |-> P("1.2", y1, "0.1"), d |-> P("1.0", y0, "0.0")]),
    airfoils |-> D([inner |-> S("NACA0012"), outer |-> S("NACA2412")]),
    geometry |-> D([inner_axis |-> N("0.25"), sweep |-> N("5.0")]),
    panels |-> D([num_c |-> I("2"), num_s |-> I("2")])])
Ctl(u, kind, si, so, x) == D([uid |-> S(u), device_type |-> S(kind), deflection |-> N("5.0"), deflection_mirror |-> N("-5.0"),
    segment_uid |-> D([inner |-> S(si), outer |-> S(so)]),
    rel_vertices |-> D([eta_inner |-> N("0.2"), eta_outer |-> N("0.8"), xsi_inner |-> N(x), xsi_outer |-> N(x)]),
    rel_hinge_vertices |-> D([xsi_inner |-> N(x), xsi_outer |-> N(x)]),
    panels |-> D([num_c |-> I("2")])])
WingDoc(u, sym, s1, s2) == D([uid |-> S(u), symmetry |-> I(sym), segments |-> L(<<Seg(s1, "0.0", "2.0"), Seg(s2, "2.0", "4.0")>>),
    controls |-> L(<<Ctl("c0", "flap", s1, s1, "0.7"), Ctl("c1", "slat", s1, s2, "0.2")>>)])
Base == D([uid |-> S("ac"),
    refs |-> D([area |-> N("8.0"), chord |-> N("1.0"), span |-> N("8.0"), gcenter |-> P("0.5", "0.0", "0.0"), rcenter |-> P("0.5", "0.0", "0.0"), comment |-> S("x")]),
    wings |-> L(<<WingDoc("w0", "2", "s0", "s1"), WingDoc("w1", "0", "s0", "s2")>>)])

\* ------------------------------------------------------------------- pools
Odd == {Missing, None, B("True"), B("False"), S(""), S("abc"), L(<<>>), D(Nothing), NaN}
\* an empty or non-empty container of the wrong kind
OddList == {Missing, None, S("abc"), I("3"), N("1.5"), B("True"), B("False")}
OddDict == OddList \cup {L(<<>>), L(<<I("1")>>)}
Pos == {N("0.5"), I("3"), N("1e-9"), N("0.0"), I("0"), N("-2.0"), I("-1")} \cup (Odd \ {B("True"), B("False")})
Points == {P("1.0", "2.0", "3.0"), L(<<I("1"), N("2.5"), I("0")>>), L(<<N("1.0"), N("2.0")>>), L(<<N("1.0"), N("2.0"), N("3.0"), N("4.0")>>),
           L(<<N("1.0"), S("2"), N("3.0")>>), L(<<N("1.0"), None, N("3.0")>>), L(<<N("1.0"), L(<<>>), N("3.0")>>), L(<<S("1"), S("2"), S("3")>>),
           S("abc"), N("1.0"), D([x |-> N("1.0"), y |-> N("2.0"), z |-> N("3.0")])} \cup Odd
RelPos == {N("0.2"), N("0.8"), N("0.0"), N("1.0"), N("0.5"), N("0.05"), N("0.95"), N("-0.001"), N("1.001"), N("2.0"), I("0"), I("1"), I("2"), I("-1"), S("0.5")} \cup Odd
Counts == {I("1"), I("3"), I("0"), I("-1"), N("2.0"), N("0.5"), S("3"), L(<<I("3")>>)} \cup Odd
Deflections == {N("90.0"), N("-90.0"), I("90"), I("-90"), I("0"), N("0.0"), N("90.001"), N("-90.001"), I("91"), N("1e10"), S("5")} \cup Odd
UidPool == {S("c0"), S("c1"), S("s0"), S("s1"), S("s2"), S("w0"), S("w1"), S("S0"), S(" "), I("5"), I("0")} \cup Odd
Foils == {S("NACA0012"), S("naca4415"), S("Naca2412"), S("NACA12"), S("NACA24123"), S("NACA24a2"), S("XNACA2412"), S("airfoils/blade.p4"), S("airfoils/nothing"),
          S("airfoils"), I("2412"), L(<<S("NACA0012")>>)} \cup Odd
Angle90 == {N("0.0"), N("90.0"), N("-90.0"), N("90.5"), N("-91.0"), I("5"), I("95"), S("5")} \cup Odd
\* some corner points, and measures that may determine the others
Only(K) == D([ k \in K |-> P("0.5", "1.0", IF k \in {"c", "d"} THEN "0.25" ELSE "0.0") ])
EdgeOf(k1, k2) == D((k1 :> P("0.5", "1.0", "0.0")) @@ (k2 :> P("1.25", "1.0", "0.25")))
Partial == { Only({k}) : k \in Corners } \cup { EdgeOf("a", "d"), EdgeOf("b", "c"), EdgeOf("a", "b"), EdgeOf("d", "c"), EdgeOf("a", "c"), Only({"a", "b", "c"}),
             D([a |-> P("0.5", "1.0", "0.0"), b |-> None, c |-> None, d |-> None]), D([b |-> L(<<N("1.0"), N("2.0")>>)]) }
Whole == [inner_chord |-> N("1.0"), outer_chord |-> N("0.5"), inner_alpha |-> N("4.0"), outer_alpha |-> N("0.0"), inner_beta |-> N("0.0"), outer_beta |-> N("-2.0"),
          inner_axis |-> N("0.3"), outer_axis |-> N("0.0"), span |-> N("2.0"), sweep |-> N("0.0"), dihedral |-> N("5.0")]
Less(K) == D([ k \in DOMAIN Whole \ K |-> Whole[k] ])
With(k, v) == D([Whole EXCEPT ![k] = v])
Measured == { Less({}), Less({"inner_axis", "outer_axis"}), Less(InnerMeasures), Less(OuterMeasures), Less(InnerMeasures \cup {"inner_axis"}), Less(OuterMeasures \cup {"outer_axis"}),
              Less({"span"}), Less({"sweep"}), Less({"dihedral"}), Less({"inner_alpha"}), Less({"outer_beta"}), Less({"inner_chord"}),
              With("span", None), With("dihedral", N("0.0")), With("inner_beta", N("91.0")), With("dihedral", N("120.0")), With("span", N("-2.0")), With("outer_chord", N("0.0")),
              With("outer_axis", N("1.5")), With("sweep", S("5")), With("outer_alpha", I("2")), With("span", N("0.5")) }
W == { <<"wings", i>> : i \in IF Wide THEN {"1", "2"} ELSE {"1"} }
SegPaths == { w \o <<"segments", i>> : w \in W, i \in {"1", "2"} }
CtlPaths == { w \o <<"controls", i>> : w \in W, i \in {"1", "2"} }
Entries ==
       [ p \in {<<"uid">>} |-> {S("x"), S(""), I("5"), Missing, None, L(<<>>), B("True")} ]
    @@ [ p \in {<<"refs">>} |-> OddDict ]
    @@ [ p \in { <<"refs", k>> : k \in {"area", "chord", "span"} } |-> Pos ]
    @@ [ p \in { <<"refs", k>> : k \in {"gcenter", "rcenter"} } |-> Points ]
    @@ [ p \in {<<"refs", "comment">>} |-> {Missing, None, S(""), S("abc"), I("3"), L(<<>>), B("True")} ]
    @@ [ p \in {<<"wings">>} |-> OddList ]
    @@ [ p \in { w \o <<"uid">> : w \in W } \cup { s \o <<"uid">> : s \in SegPaths \cup CtlPaths } |-> UidPool ]
    @@ [ p \in { w \o <<"symmetry">> : w \in W } |-> { I(k) : k \in {"0", "1", "2", "3", "4", "-1", "22"} } \cup {N("2.0"), N("1.5"), S("2")} \cup Odd ]
    @@ [ p \in { w \o <<k>> : w \in W, k \in {"segments", "controls"} } |-> OddList ]
    @@ [ p \in { s \o <<k>> : s \in SegPaths, k \in {"airfoils", "panels"} } |-> OddDict ]
    @@ [ p \in { s \o <<"vertices", k>> : s \in SegPaths, k \in {"a", "b", "c", "d"} } |-> Points ]
    @@ [ p \in { s \o <<"airfoils", k>> : s \in SegPaths, k \in {"inner", "outer"} } |-> Foils ]
    @@ [ p \in { s \o <<"panels", k>> : s \in SegPaths, k \in {"num_c", "num_s"} } \cup { s \o <<"panels", "num_c">> : s \in CtlPaths } |-> Counts ]
    @@ [ p \in { s \o <<"geometry", k>> : s \in SegPaths, k \in {"inner_axis", "outer_axis"} } |-> RelPos ]
    @@ [ p \in { s \o <<"geometry", k>> : s \in SegPaths, k \in {"sweep", "inner_alpha", "outer_beta", "dihedral", "span", "outer_chord"} } |-> Angle90 ]
    @@ [ p \in { c \o <<k>> : c \in CtlPaths, k \in {"segment_uid", "rel_vertices", "rel_hinge_vertices", "panels"} } |-> OddDict ]
    @@ [ p \in { c \o <<"device_type">> : c \in CtlPaths } |-> {S("flap"), S("slat"), S("Flap"), S("flaps"), S("slat "), S("aileron"), I("1")} \cup Odd ]
    @@ [ p \in { c \o <<k>> : c \in CtlPaths, k \in {"deflection", "deflection_mirror"} } |-> Deflections ]
    @@ [ p \in { c \o <<"segment_uid", k>> : c \in CtlPaths, k \in {"inner", "outer"} } |-> UidPool ]
    @@ [ p \in { c \o <<"rel_vertices", k>> : c \in CtlPaths, k \in {"eta_inner", "eta_outer", "xsi_inner", "xsi_outer"} } |-> RelPos ]
    @@ [ p \in { c \o <<"rel_hinge_vertices", k>> : c \in CtlPaths, k \in {"xsi_inner", "xsi_outer"} } |-> RelPos ]

    @@ [ p \in { s \o <<"vertices">> : s \in SegPaths } |-> OddDict \cup Partial ]
    @@ [ p \in { s \o <<"geometry">> : s \in SegPaths } |-> OddDict \cup Measured ]

Index == [ x \in {"1", "2"} |-> IF x = "1" THEN 1 ELSE 2 ]
RECURSIVE Put(_, _, _)
Put(d, path, v) ==
    IF path = <<>> THEN v
    ELSE LET k == Head(path)  r == Tail(path) IN
         IF d.t = "dict" THEN
             IF r = <<>> /\ v.t = "missing" THEN [d EXCEPT !.d = [ x \in DOMAIN d.d \ {k} |-> d.d[x] ]]
             ELSE [d EXCEPT !.d = (k :> Put(Get(d, k), r, v)) @@ d.d]
         ELSE IF d.t = "list" /\ Index[k] \in DOMAIN d.s THEN [d EXCEPT !.s[Index[k]] = Put(d.s[Index[k]], r, v)]
         ELSE d

VARIABLES doc, changed, kinds, before
vars == <<doc, changed, kinds, before>>
Files == {"airfoils/blade.p4"}

Init == doc = Base /\ changed = <<>> /\ before = {} /\ kinds = Findings(Base, Files)
\* pairs of changes of entries that depend on each other, each pair once
Linked ==
    LET w == <<"wings", "1">>  c == w \o <<"controls", "1">>  g == w \o <<"controls", "2">> IN
    << w \o <<"segments", "1", "geometry">>, w \o <<"segments", "1", "vertices">>, w \o <<"symmetry">>, c \o <<"deflection_mirror">>, c \o <<"segment_uid", "inner">>, c \o <<"segment_uid", "outer">>,
       c \o <<"rel_vertices", "eta_inner">>, c \o <<"rel_vertices", "eta_outer">>, w \o <<"segments", "1", "uid">>, w \o <<"segments", "2", "uid">>,
       c \o <<"uid">>, g \o <<"uid">>, <<"wings", "1", "uid">>, <<"wings", "2", "uid">>, c \o <<"deflection">>,
       g \o <<"segment_uid", "outer">>, g \o <<"rel_vertices", "eta_inner">>, g \o <<"rel_vertices", "eta_outer">> >>
LinkOf(p) == { i \in 1..Links : Linked[i] = p }
Next(p) == \/ changed = <<>>
           \/ \E i \in LinkOf(changed[Len(changed)].p), j \in LinkOf(p) : i < j
Change == /\ Len(changed) < MaxChanges
          /\ \E p \in { q \in DOMAIN Entries : Next(q) } : \E v \in Entries[p] :
                LET d == Put(doc, p, v)  f == TLCEval(Findings(d, Files)) IN
                /\ d # doc
                /\ doc' = d
                /\ changed' = Append(changed, [p |-> p, t |-> v.t, v |-> v])
                /\ kinds' = f
                /\ before' = kinds
                \* single changes, and pairs that mean more or less than their parts
                /\ (Len(changed) = 0 \/ Verdict(f) = "ok" \/ (Verdict(kinds) # "bad" /\ Verdict(f) = "bad"))
                   => PrintT("@@CASE@@" \o ToJson([ch |-> changed', verdict |-> Verdict(f)]))
Spec == Init /\ [][Change]_vars

BaseIsFine == changed = <<>> => kinds = {}
\* every objection is about what was changed: unchanged files have none
SomeChange == kinds # {} => changed # <<>>
Verdicts == Verdict(kinds) \in {"ok", "open", "late", "bad"}
\* the second change cannot make good what the first one broke, unless both are parts of one reference
Masking == Len(changed) = 2 /\ "bad" \in Kinds(before) /\ "bad" \notin Kinds(kinds) =>
              /\ \E i, j \in 1..Len(Linked) : Linked[i] = changed[1].p /\ Linked[j] = changed[2].p
              /\ { x \in before : x[1] = "bad" } \ kinds \subseteq { <<"bad", x>> : x \in {"eta", "deflection_mirror", "segment uid twice", "control uid twice", "wing uid twice", "segment_uid", "corners missing"} }
=============================================================================
