-------------------------------- MODULE Tiling --------------------------------
(***************************************************************************)
(* How a wing segment is divided into strips and patches.                  *)
(*                                                                         *)
(* A segment has corner points v = [a, b, c, d] (a: inner leading edge,    *)
(* b: outer leading edge, c: outer trailing edge, d: inner trailing edge). *)
(* eta in [0, 1] is the relative spanwise and xsi in [0, 1] the relative   *)
(* chordwise position.  Its strips are a sequence, in order of eta, of     *)
(*     [ea, eb, flap, slat]                                                *)
(* where flap and slat are None or a patch of a control surface            *)
(*     [u, x1, x2, h1, h2]                                                 *)
(* with the edge positions x1, x2 and hinge positions h1, h2 at ea and eb. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Flt

MinEta == "0.01"       \* minimum strip width
MinXsi == "0.01"       \* minimum chordwise distance of slat and flap

None == [u |-> ""]
IsNone(p) == p.u = ""

Fresh == << [ea |-> "0.0", eb |-> "1.0", flap |-> None, slat |-> None] >>

(* ------------------------------ geometry ------------------------------- *)
LEPoint(v, eta) == VLerp(v.a, v.b, eta)
TEPoint(v, eta) == VLerp(v.d, v.c, eta)
SegPoint(v, eta, xsi) == VLerp(LEPoint(v, eta), TEPoint(v, eta), xsi)

SegNormal(v) == VCross(VSub(v.b, v.a), VSub(v.d, v.a))

\* The xsi at eta of the straight line from (e1, x1) to (e2, x2).  The line
\* is cut with the plane through the chord at eta that contains the normal.
XsiOnLine(v, e1, x1, e2, x2, eta) ==
    LET p  == SegPoint(v, e1, x1)
        q  == SegPoint(v, e2, x2)
        up == LEPoint(v, eta)
        ch == VSub(TEPoint(v, eta), up)
        m  == VCross(SegNormal(v), ch)
        t  == FDiv(FDot(m, VSub(up, p)), FDot(m, VSub(q, p)))
        s  == VLerp(p, q, t)
    IN FDiv(VNorm(VSub(s, up)), VNorm(ch))

(* ------------------------------- strips -------------------------------- *)
Borders(ss) == [ i \in 1..(Len(ss) + 1) |-> IF i <= Len(ss) THEN ss[i].ea ELSE ss[Len(ss)].eb ]
Inside(eta) == FLt("0.0", eta) /\ FLt(eta, "1.0")
TooClose(x, y) == FLt(FAbs(FSub(x, y)), MinEta)
IsBorder(ss, eta) == \E i \in DOMAIN Borders(ss) : FEq(Borders(ss)[i], eta)
Creatable(ss, eta) == Inside(eta) /\ \A i \in DOMAIN Borders(ss) : ~TooClose(Borders(ss)[i], eta)

SplitPatch(v, s, p, eta) ==
    IF IsNone(p) THEN <<None, None>>
    ELSE LET x == XsiOnLine(v, s.ea, p.x1, s.eb, p.x2, eta)
             h == XsiOnLine(v, s.ea, p.h1, s.eb, p.h2, eta)
         IN << [p EXCEPT !.x2 = x, !.h2 = h], [p EXCEPT !.x1 = x, !.h1 = h] >>

SplitStrip(v, s, eta) ==
    LET f == TLCEval(SplitPatch(v, s, s.flap, eta))
        l == TLCEval(SplitPatch(v, s, s.slat, eta))
    IN << [ea |-> s.ea, eb |-> eta, flap |-> f[1], slat |-> l[1]],
          [ea |-> eta, eb |-> s.eb, flap |-> f[2], slat |-> l[2]] >>

\* Divide the segment at eta, unless there is a division line (almost) there
AddBorder(v, ss, eta) ==
    IF ~Creatable(ss, eta) THEN ss
    ELSE LET k == CHOOSE i \in DOMAIN ss : FLt(ss[i].ea, eta) /\ FLt(eta, ss[i].eb)
         IN TLCEval(SubSeq(ss, 1, k-1) \o SplitStrip(v, ss[k], eta) \o SubSeq(ss, k+1, Len(ss)))

\* A position very close to a division line is that line
Snap(ss, eta) ==
    LET B == Borders(ss)
        near == { i \in DOMAIN B : TooClose(B[i], eta) }
    IN IF near = {} THEN eta
       ELSE B[CHOOSE i \in near : \A j \in near : FLe(FAbs(FSub(B[i], eta)), FAbs(FSub(B[j], eta)))]

(* ------------------------------ controls ------------------------------- *)
\* c: [u, type, ea, eb, x1, x2, h1, h2]; what a strip gets of it
Patch(v, s, c, ea, eb) ==
    [ u  |-> c.u,
      x1 |-> IF FEq(s.ea, ea) THEN c.x1 ELSE XsiOnLine(v, ea, c.x1, eb, c.x2, s.ea),
      x2 |-> IF FEq(s.eb, eb) THEN c.x2 ELSE XsiOnLine(v, ea, c.x1, eb, c.x2, s.eb),
      h1 |-> IF FEq(s.ea, ea) THEN c.h1 ELSE XsiOnLine(v, ea, c.h1, eb, c.h2, s.ea),
      h2 |-> IF FEq(s.eb, eb) THEN c.h2 ELSE XsiOnLine(v, ea, c.h1, eb, c.h2, s.eb) ]

XsiOK(p) == /\ Inside(p.x1) /\ Inside(p.x2)
            /\ FLe("0.0", p.h1) /\ FLe(p.h1, "1.0") /\ FLe("0.0", p.h2) /\ FLe(p.h2, "1.0")

SlatBeforeFlap(slat, flap) == /\ ~FGt(FAdd(slat.x1, MinXsi), flap.x1)
                              /\ ~FGt(FAdd(slat.x2, MinXsi), flap.x2)

\* May strip s carry patch p of the given type as well?
Fits(s, type, p) ==
    /\ XsiOK(p)
    /\ IsNone(s[type])
    /\ (type = "flap" /\ ~IsNone(s.slat)) => SlatBeforeFlap(s.slat, p)
    /\ (type = "slat" /\ ~IsNone(s.flap)) => SlatBeforeFlap(p, s.flap)

\* A control between ea and eb: [ok, ss]
AddControl(v, ss, c) ==
    LET ra == Snap(ss, c.ea)
        rb == Snap(ss, c.eb)
    IN IF FLt(FSub(rb, ra), MinEta) THEN [ok |-> TRUE, ss |-> ss]
       ELSE IF FLt(ra, "0.0") \/ FGt(rb, "1.0") THEN [ok |-> FALSE, ss |-> ss]
       ELSE LET s2 == TLCEval(AddBorder(v, AddBorder(v, ss, ra), rb))
                on(s) == FLe(ra, s.ea) /\ FLe(s.eb, rb)
                ok == \A i \in DOMAIN s2 : on(s2[i]) => Fits(s2[i], c.type, Patch(v, s2[i], c, ra, rb))
            IN [ ok |-> ok,
                 ss |-> IF ok THEN TLCEval([ i \in DOMAIN s2 |->
                                    IF on(s2[i]) THEN [s2[i] EXCEPT ![c.type] = Patch(v, s2[i], c, ra, rb)]
                                    ELSE s2[i] ])
                        ELSE s2 ]

(* ----------------------------- invariants ------------------------------ *)
TilesSpan(ss) == /\ FEq(ss[1].ea, "0.0") /\ FEq(ss[Len(ss)].eb, "1.0")
                 /\ \A i \in DOMAIN ss : FLt(ss[i].ea, ss[i].eb)
                 /\ \A i \in 1..(Len(ss)-1) : FEq(ss[i].eb, ss[i+1].ea)
NoSlivers(ss) == \A i \in DOMAIN ss : ~FLt(FSub(ss[i].eb, ss[i].ea), MinEta)
ChordOrder(ss) == \A i \in DOMAIN ss :
    /\ ~IsNone(ss[i].flap) => XsiOK(ss[i].flap)
    /\ ~IsNone(ss[i].slat) => XsiOK(ss[i].slat)
    /\ (~IsNone(ss[i].flap) /\ ~IsNone(ss[i].slat)) =>
            /\ FLt(ss[i].slat.x1, ss[i].flap.x1) /\ FLt(ss[i].slat.x2, ss[i].flap.x2)
\* one control, one straight line: no step at a border inside a control
NoSteps(ss, tol) == \A i \in 1..(Len(ss)-1) : \A ty \in {"flap", "slat"} :
    (~IsNone(ss[i][ty]) /\ ss[i][ty].u = ss[i+1][ty].u) =>
        /\ FNear(ss[i][ty].x2, ss[i+1][ty].x1, tol)
        /\ FNear(ss[i][ty].h2, ss[i+1][ty].h1, tol)
=============================================================================
