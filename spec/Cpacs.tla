--------------------------------- MODULE Cpacs --------------------------------
(***************************************************************************)
(* What a CPACS file means: the aircraft, the flight points and where the  *)
(* results of a run are written.  A document is a record                   *)
(*   hasWings, uid, refs [p, area, length],                                *)
(*   wings: [uid, named, sym, segs: [uid, p [a, b, c, d], t, fi, fo],      *)
(*           csegs: [uid, segs, borders, shift,                            *)
(*                   ctls: [uid, ei, eo, xi, xo, hi, ho]]]                 *)
(*   devs: [uid, d, dm] (deflections by control; "" if not given),         *)
(*   maps: [uid, alt, mach, aoa, aos], sel (uid of the chosen map or "")   *)
(* p are the corner points that the geometry library gives: a, d inner     *)
(* leading and trailing edge, b, c outer ones.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

Keep == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
KeepSet == { SubSeq(Keep, j, j) : j \in 1..Len(Keep) }
RECURSIVE CleanFrom(_, _)
CleanFrom(s, i) == IF i > Len(s) THEN ""
                   ELSE LET c == SubSeq(s, i, i)  r == CleanFrom(s, i + 1) IN IF c \in KeepSet THEN c \o r ELSE r
\* names without other characters than letters, digits, '-' and '_'
Clean(s) == IF \A i \in 1..Len(s) : SubSeq(s, i, i) \in KeepSet THEN s ELSE CleanFrom(s, 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

WingUid(doc, w) == IF doc.wings[w].named THEN Clean(doc.wings[w].uid) ELSE "WING" \o (IF w < 10 THEN "0" ELSE "") \o ToString(w)

\* a segment that runs against the y-axis (or against z) is taken from its other end
Against(p) == FLt(p.b[2], p.a[2]) \/ (FEq(p.b[2], p.a[2]) /\ FLt(p.b[3], p.a[3]))
Segment(s) ==
    LET r == Against(s.p)  fi == "airfoils/blade." \o Clean(s.fi)  fo == "airfoils/blade." \o Clean(s.fo) IN
    [uid |-> Clean(s.uid),
     a |-> IF r THEN s.p.b ELSE s.p.a, b |-> IF r THEN s.p.a ELSE s.p.b,
     c |-> IF r THEN s.p.d ELSE s.p.c, d |-> IF r THEN s.p.c ELSE s.p.d,
     fi |-> IF r THEN fo ELSE fi, fo |-> IF r THEN fi ELSE fo]

\* where a point of a component segment is: segment and position in it
Place(w, c, eta, xsi) ==
    LET hit == { i \in 1..Len(c.borders) - 1 : FLe(eta, c.borders[i + 1]) }
        i == IF hit = {} THEN Len(c.borders) - 1 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
        s == w.segs[c.segs[i]]
        e == FDiv(FSub(eta, c.borders[i]), FSub(c.borders[i + 1], c.borders[i]))
    IN  [uid |-> Clean(s.uid), eta |-> IF Against(s.p) THEN FSub("1.0", e) ELSE e, xsi |-> FAdd(xsi, FMul(c.shift, eta)), back |-> Against(s.p)]
Control(w, c, k) ==
    LET i == Place(w, c, k.ei, k.xi)  o == Place(w, c, k.eo, k.xo)
        hi == FAdd(k.hi, FMul(c.shift, k.ei))  ho == FAdd(k.ho, FMul(c.shift, k.eo))
        swap == i.back /\ o.back /\ i.uid = o.uid
        X == IF swap THEN o ELSE i   Y == IF swap THEN i ELSE o
    IN  [u |-> k.uid, type |-> "flap", si |-> X.uid, so |-> Y.uid, eta_inner |-> X.eta, eta_outer |-> Y.eta,
         xsi_inner |-> X.xsi, xsi_outer |-> Y.xsi, h_xsi_inner |-> IF swap THEN ho ELSE hi, h_xsi_outer |-> IF swap THEN hi ELSE ho]

Ctls(w) == Flat([ i \in DOMAIN w.csegs |-> [ j \in DOMAIN w.csegs[i].ctls |-> Control(w, w.csegs[i], w.csegs[i].ctls[j]) ] ])
\* the last deflection given for a control counts; the mirror image follows where it has none of its own
DevOf(doc, u) == LET d == { i \in DOMAIN doc.devs : doc.devs[i].uid = u } IN
                 IF d = {} THEN [d |-> "0.0", dm |-> ""] ELSE LET i == CHOOSE i \in d : \A j \in d : j <= i IN
                 [d |-> IF doc.devs[i].d = "" THEN "0.0" ELSE doc.devs[i].d, dm |-> doc.devs[i].dm]
Deflected(doc, w, k) == LET v == DevOf(doc, k.u) IN
    [deflection |-> v.d, mirror |-> IF w.sym = "0" THEN "" ELSE IF v.dm = "" THEN v.d ELSE v.dm]

\* m: the controls of each wing
AircraftOk(doc, m) == doc.hasWings /\ \A i \in DOMAIN doc.devs : \E w \in DOMAIN m : \E j \in DOMAIN m[w].ctls : m[w].ctls[j].u = doc.devs[i].uid

Chosen(doc) == IF Len(doc.maps) = 1 THEN 1 ELSE
               LET h == { i \in DOMAIN doc.maps : doc.maps[i].uid = doc.sel } IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Even(m) == Len(m.alt) = Len(m.mach) /\ Len(m.alt) = Len(m.aoa) /\ Len(m.alt) = Len(m.aos)
StateOk(doc) == Chosen(doc) # 0 /\ Even(doc.maps[Chosen(doc)])
Points(doc) == LET m == doc.maps[Chosen(doc)] IN [alt |-> m.alt, mach |-> m.mach, aoa |-> m.aoa, aos |-> m.aos]

\* ------------------------------------------------------------------ changes
DropLast(s) == SubSeq(s, 1, Len(s) - 1)
SwapSeg(s) == [s EXCEPT !.p = [a |-> s.p.b, b |-> s.p.a, c |-> s.p.d, d |-> s.p.c], !.fi = s.fo, !.fo = s.fi]
\* a segment described from its other end, together with what lies on it
SwapWing(w) ==
    [w EXCEPT !.segs = [ i \in DOMAIN w.segs |-> SwapSeg(w.segs[i]) ],
              !.csegs = [ i \in DOMAIN w.csegs |-> [w.csegs[i] EXCEPT !.ctls = [ j \in DOMAIN w.csegs[i].ctls |->
                  LET k == w.csegs[i].ctls[j] IN [k EXCEPT !.ei = FSub("1.0", k.eo), !.eo = FSub("1.0", k.ei), !.tei = k.teo, !.teo = k.tei, !.xi = k.xo, !.xo = k.xi, !.hi = k.ho, !.ho = k.hi] ]]]]
After(doc, e) ==
    CASE e.op = "sym" -> [doc EXCEPT !.wings[e.w].sym = e.v]
      [] e.op = "named" -> [doc EXCEPT !.wings[e.w].named = ~@]
      [] e.op = "reverse" -> [doc EXCEPT !.wings[e.w] = SwapWing(@)]
      [] e.op = "dev" -> [doc EXCEPT !.devs[e.i].uid = e.v]
      [] e.op = "deflect" -> [doc EXCEPT !.devs[e.i].d = e.v, !.devs[e.i].dm = e.m]
      [] e.op = "devorder" -> [doc EXCEPT !.devs = [ i \in DOMAIN @ |-> @[Len(@) + 1 - i] ]]
      [] e.op = "devdrop" -> [doc EXCEPT !.devs = Tail(@)]
      [] e.op = "wingorder" -> [doc EXCEPT !.wings = [ i \in DOMAIN @ |-> @[Len(@) + 1 - i] ]]
      [] e.op = "wings" -> [doc EXCEPT !.hasWings = ~@]
      [] e.op = "select" -> [doc EXCEPT !.sel = e.v]
      [] e.op = "mapdrop" -> [doc EXCEPT !.maps = Tail(@)]
      [] e.op = "maporder" -> [doc EXCEPT !.maps = [ i \in DOMAIN @ |-> @[Len(@) + 1 - i] ]]
      [] e.op = "point" -> [doc EXCEPT !.maps[e.i].alt = Append(@, e.alt), !.maps[e.i].mach = Append(@, e.mach), !.maps[e.i].aoa = Append(@, e.aoa), !.maps[e.i].aos = Append(@, e.aos)]
      [] e.op = "unpoint" -> [doc EXCEPT !.maps[e.i].alt = Tail(@), !.maps[e.i].mach = Tail(@), !.maps[e.i].aoa = Tail(@), !.maps[e.i].aos = Tail(@)]
      [] e.op = "uneven" -> [doc EXCEPT !.maps[e.i] = CASE e.v = "mach" -> [@ EXCEPT !.mach = DropLast(@)]
                                                       [] e.v = "aoa" -> [@ EXCEPT !.aoa = DropLast(@)]
                                                       [] e.v = "aos" -> [@ EXCEPT !.aos = DropLast(@)]
                                                       [] OTHER -> [@ EXCEPT !.alt = DropLast(@)]]
      [] OTHER -> doc
=============================================================================
