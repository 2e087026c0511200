------------------------------ MODULE T_Mirror ------------------------------
(***************************************************************************)
(* Traces of panelled aircraft, wing by wing: the patches of the wing      *)
(* (main) and those of its image.  A patch is [s, ea, eb, type, u, n,      *)
(* panels (corner points), area, c, nv, hinge (two points or none)].       *)
(***************************************************************************)
EXTENDS Lattice, TraceBase

VARIABLES tr, ln, st

Start(t) == [k |-> t.k]
T(s) == Traces[s.k]

\* a panel as the set of its corners
SameSet(p, q) == /\ Len(p) = Len(q)
                 /\ \A i \in DOMAIN p : \E j \in DOMAIN q : VNear(p[i], q[j], "1e-9")
                 /\ \A j \in DOMAIN q : \E i \in DOMAIN p : VNear(p[i], q[j], "1e-9")
Image(sym, ps) == [ i \in DOMAIN ps |-> MirrorPoint(sym, ps[i]) ]
\* for every panel of the patch a panel of the image
Partner(sym, m, i, k) == SelectSeq([ j \in DOMAIN i.panels |-> j ], LAMBDA j : SameSet(Image(sym, m.panels[k]), i.panels[j]))

PatchIsImage(sym, equal, m, i) ==
    LET of == TLCEval([ k \in DOMAIN m.panels |-> Partner(sym, m, i, k) ])
        one == \A k \in DOMAIN of : Len(of[k]) = 1
    IN Failing(<<
        <<"SamePlace", m.s = i.s /\ FNear(m.ea, i.ea, "0") /\ FNear(m.eb, i.eb, "0")>>,
        <<"SameKind", m.type = i.type /\ m.u = i.u>>,
        <<"AsManyPanels", m.n = i.n /\ Len(m.panels) = m.n /\ Len(i.panels) = i.n>>,
        <<"PanelsMirrored", one /\ { of[k][1] : k \in DOMAIN of } = DOMAIN i.panels>>,
        <<"AreasMirrored", one => \A k \in DOMAIN of : FNear(m.a[k], i.a[of[k][1]], FMul("1e-9", FAdd("1.0", m.a[k])))>>,
        <<"HingeLineMirrored", SameSet(Image(sym, m.hinge), i.hinge)>>,
        \* the front of an image in the yz plane is not the image of the front
        <<"CollocationPointsMirrored", (one /\ sym # 3) =>
            \A k \in DOMAIN of : VNear(MirrorPoint(sym, m.c[k]), i.c[of[k][1]], "1e-9")>>,
        <<"VorticesMirrored", (one /\ sym # 3) =>
            \A k \in DOMAIN of : VNear(MirrorPoint(sym, m.m[k]), i.m[of[k][1]], "1e-9")>>,
        \* same deflections on both sides: normals are mirrored, camber and deflection included
        <<"NormalsMirrored", (one /\ sym = 2 /\ equal) =>
            \A k \in DOMAIN of : VNear(MirrorPoint(sym, m.nv[k]), i.nv[of[k][1]], "1e-4")>> >>)

SameDeflections(w) == \A j \in DOMAIN w.ctls : w.ctls[j].deflm = "" \/ FEq(w.ctls[j].deflm, w.ctls[j].defl)

WingClauses(s, e) ==
    LET w == WingOf(T(s).ac, e.w)
    IN Failing(<< <<"NoImageWithoutSymmetry", w.sym = 0 => e.image = <<>> >>,
                  <<"ImageWithSymmetry", w.sym # 0 => Len(e.image) = Len(e.main)>>,
                  <<"WingModelled", e.main # <<>> >> >>)
       \cup (IF w.sym # 0 /\ Len(e.image) = Len(e.main)
             THEN UNION { PatchIsImage(w.sym, SameDeflections(w), e.main[k], e.image[k]) : k \in DOMAIN e.main } ELSE {})

Clauses(s, e) ==
    CASE e.e = "run" -> Failing(<< <<"Accepted", AllFit(T(s).ac) => e.outcome = "ok">> >>)
      [] e.e = "wing" -> WingClauses(s, e)
      [] OTHER -> {"UnknownEvent"}
Step(s, e) == s
Detail(s, e) == e

INSTANCE TraceRun
=============================================================================
