--------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Which plots a run makes and what they show.  A configuration gives for  *)
(* each kind of plot whether it is saved and shown, and its options.       *)
(* files: the number of files of each name in the folder of each point.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Kinds == {"geometry", "lattice", "results", "matrix_downwash"}
Views == {"2D", "3D"}
\* without a choice the pressure coefficients are shown
Keys(c) == IF c.results.opt = <<>> THEN <<"cp">> ELSE c.results.opt
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
Range(s) == { s[i] : i \in DOMAIN s }
\* the names of the files that one flight point gives, with their number
FilesOf(c) ==
    LET names == (IF c.matrix_downwash.save THEN {"downwash"} ELSE {})
                 \cup (IF c.geometry.save THEN { "geometry" \o v : v \in Views } ELSE {})
                 \cup (IF c.lattice.save THEN { "lattice" \o v : v \in Views } ELSE {})
                 \cup (IF c.results.save THEN { "results_" \o k \o v : k \in Range(Keys(c)), v \in Views } ELSE {})
        number(n) == LET h == { k \in Range(Keys(c)) : \E v \in Views : n = "results_" \o k \o v } IN
                     IF h = {} THEN 1 ELSE Count(Keys(c), CHOOSE k \in h : TRUE)
    IN  [ n \in names |-> number(n) ]
\* the windows that one flight point opens: downwash matrix, views (of geometry and lattice) and views of results
WindowsOf(c) == [downwash |-> IF c.matrix_downwash.show THEN 1 ELSE 0,
                 views |-> (IF c.geometry.show THEN 1 ELSE 0) + (IF c.lattice.show THEN 1 ELSE 0),
                 results |-> IF c.results.show THEN Keys(c) ELSE <<>>]

NoFiles == [ n \in {} |-> 0 ]
At(f, n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Sum(f, g) == [ n \in DOMAIN f \cup DOMAIN g |-> At(f, n) + At(g, n) ]
\* files: point -> name -> number
AtPoint(files, i) == IF i \in DOMAIN files THEN files[i] ELSE NoFiles
AfterRun(files, c, points) == [ i \in DOMAIN files \cup 1..points |-> IF i <= points THEN Sum(AtPoint(files, i), FilesOf(c)) ELSE files[i] ]

\* --------------------------------------------------------------- what is drawn
\* aircraft: gcenter, wings [sym, segs [a, b, c, d], ctls [type, si, so, ei, eo, xi, xo, hi, ho]]
Canon(p) == << FAdd(p[1], "0.0"), FAdd(p[2], "0.0"), FAdd(p[3], "0.0") >>
Spot(s, eta, xsi) == VLerp(VLerp(s.a, s.b, eta), VLerp(s.d, s.c, eta), xsi)
Image(p, sym) == CASE sym = 1 -> <<p[1], p[2], FNeg(p[3])>> [] sym = 2 -> <<p[1], FNeg(p[2]), p[3]>> [] sym = 3 -> <<FNeg(p[1]), p[2], p[3]>> [] OTHER -> p
Sides(p, q) == { Canon(p), Canon(q) }
Round(pts, closed) == { Sides(pts[i], pts[i + 1]) : i \in 1..(Len(pts) - 1) } \cup (IF closed THEN {Sides(pts[Len(pts)], pts[1])} ELSE {})
Both(pts, closed, sym) == Round(pts, closed) \cup (IF sym = 0 THEN {} ELSE Round([ i \in DOMAIN pts |-> Image(pts[i], sym) ], closed))
Outline(s) == <<s.a, s.b, s.c, s.d>>
\* a control is drawn without its edge at the edge of the wing's own outline being repeated: three sides and the hinge line
CtlShape(w, c) ==
    LET i == w.segs[c.si]  o == w.segs[c.so] IN
    IF c.type = "flap" THEN << Spot(i, c.ei, "1.0"), Spot(i, c.ei, c.xi), Spot(o, c.eo, c.xo), Spot(o, c.eo, "1.0") >>
    ELSE << Spot(o, c.eo, "0.0"), Spot(o, c.eo, c.xo), Spot(i, c.ei, c.xi), Spot(i, c.ei, "0.0") >>
Hinge(w, c) == << Spot(w.segs[c.si], c.ei, c.hi), Spot(w.segs[c.so], c.eo, c.ho) >>
WingLines(ac) == UNION { UNION { Both(Outline(ac.wings[w].segs[i]), TRUE, ac.wings[w].sym) : i \in DOMAIN ac.wings[w].segs } : w \in DOMAIN ac.wings }
CtlLines(ac) == UNION { UNION { LET c == ac.wings[w].ctls[i] IN Both(CtlShape(ac.wings[w], c), FALSE, ac.wings[w].sym) \cup Both(Hinge(ac.wings[w], c), FALSE, ac.wings[w].sym)
                                : i \in DOMAIN ac.wings[w].ctls } : w \in DOMAIN ac.wings }
Panels(p) == UNION { Round(p[i], TRUE) : i \in DOMAIN p }
Views2 == [yz |-> <<2, 3>>, xz |-> <<1, 3>>, xy |-> <<1, 2>>]
Seen(lines, v) == { { << p[Views2[v][1]], p[Views2[v][2]] >> : p \in l } : l \in lines }
=============================================================================
