------------------------------ MODULE TilingObs ------------------------------
(***************************************************************************)
(* Recorded strips (harness/d_vlm.strips) as states of Tiling.  A recorded *)
(* strip has eta = [a, b, c, d] and, for slat, segment (the main area) and *)
(* flap, xsi = [a, b, c, d] (none if the patch is not there), h = [h1, h2] *)
(* and the control's uid u.                                                *)
(***************************************************************************)
EXTENDS Tiling

Here(p) == p.xsi # <<>>

\* xsi of a trailing-edge patch's (leading) and a leading-edge patch's (trailing) edge
AbsPatch(p, i1, i2) == IF ~Here(p) THEN None
                       ELSE [u |-> p.u, x1 |-> p.xsi[i1], x2 |-> p.xsi[i2], h1 |-> p.h[1], h2 |-> p.h[2]]
AbsStrip(o) == [ea |-> o.eta[1], eb |-> o.eta[2],
                flap |-> AbsPatch(o.flap, 1, 2), slat |-> AbsPatch(o.slat, 4, 3)]
AbsStrips(os) == [ i \in DOMAIN os |-> AbsStrip(os[i]) ]

\* the patches of the strip tile the chord
ChordTiled(o) ==
    /\ o.extra = <<>>
    /\ FEq(o.eta[1], o.eta[4]) /\ FEq(o.eta[2], o.eta[3])
    /\ Here(o.segment) /\ o.segment.u = ""
    /\ Here(o.slat) => /\ FEq(o.slat.xsi[1], "0.0") /\ FEq(o.slat.xsi[2], "0.0")
                       /\ FEq(o.slat.xsi[3], o.segment.xsi[2]) /\ FEq(o.slat.xsi[4], o.segment.xsi[1])
    /\ ~Here(o.slat) => FEq(o.segment.xsi[1], "0.0") /\ FEq(o.segment.xsi[2], "0.0")
    /\ Here(o.flap) => /\ FEq(o.flap.xsi[3], "1.0") /\ FEq(o.flap.xsi[4], "1.0")
                       /\ FEq(o.flap.xsi[1], o.segment.xsi[4]) /\ FEq(o.flap.xsi[2], o.segment.xsi[3])
    /\ ~Here(o.flap) => FEq(o.segment.xsi[3], "1.0") /\ FEq(o.segment.xsi[4], "1.0")
    /\ FLt(o.segment.xsi[1], o.segment.xsi[4]) /\ FLt(o.segment.xsi[2], o.segment.xsi[3])
    /\ (Here(o.slat) => o.slat.u # "") /\ (Here(o.flap) => o.flap.u # "")

SamePatch(p, q, tol) == /\ p.u = q.u
                        /\ ~IsNone(p) => /\ FNear(p.x1, q.x1, tol) /\ FNear(p.x2, q.x2, tol)
                                         /\ FNear(p.h1, q.h1, tol) /\ FNear(p.h2, q.h2, tol)
SameStrips(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in DOMAIN s : /\ FNear(s[i].ea, t[i].ea, tol) /\ FNear(s[i].eb, t[i].eb, tol)
                           /\ SamePatch(s[i].flap, t[i].flap, tol)
                           /\ SamePatch(s[i].slat, t[i].slat, tol)

\* Requests only refine: no border and no part of a control ever disappears
Refines(old, new) ==
    /\ \A i \in DOMAIN old : \E j \in DOMAIN new : FEq(old[i].ea, new[j].ea)
    /\ \A i \in DOMAIN old, ty \in {"flap", "slat"} : ~IsNone(old[i][ty]) =>
          \A j \in DOMAIN new : (FLe(old[i].ea, new[j].ea) /\ FLe(new[j].eb, old[i].eb)) =>
              new[j][ty].u = old[i][ty].u

\* what holds of the strips of a segment whatever was requested
TilingClauses(os) ==
    LET ss == AbsStrips(os)
    IN << <<"StripsTileSpan", Len(os) > 0 /\ TilesSpan(ss)>>,
          <<"NoStripNarrowerThanMinimum", NoSlivers(ss)>>,
          <<"PatchesTileChord", \A i \in DOMAIN os : ChordTiled(os[i])>>,
          <<"SlatBeforeFlap", ChordOrder(ss)>>,
          <<"EdgesMeetAtStripBorders", NoSteps(ss, "1e-7")>> >>
=============================================================================
