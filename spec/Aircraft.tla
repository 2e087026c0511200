------------------------------ MODULE Aircraft ------------------------------
(***************************************************************************)
(* The aircraft definition as it appears in traces (vt/gen.norm_aircraft): *)
(*   [uid, refs : [area, chord, span, gcenter, rcenter], wings]            *)
(*   wing    [uid, sym (0..3), segs, ctls]                                 *)
(*   segment [uid, a, b, c, d, num_c, num_s (0: not given), fi, fo]        *)
(*   control [u, type, defl, deflm ("": not given), si, so, ea, eb,        *)
(*            x1, x2, h1, h2, num_c (0: not given)]                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Flt

WingOf(ac, uid) == SelectSeq(ac.wings, LAMBDA w : w.uid = uid)[1]
SegOf(w, uid) == SelectSeq(w.segs, LAMBDA s : s.uid = uid)[1]
CtlOf(w, u) == SelectSeq(w.ctls, LAMBDA c : c.u = u)[1]

\* ------------------------------ mirroring -------------------------------
\* symmetry plane 1: xy, 2: xz, 3: yz
MirrorPoint(sym, p) ==
    CASE sym = 1 -> << p[1], p[2], FNeg(p[3]) >>
      [] sym = 2 -> << p[1], FNeg(p[2]), p[3] >>
      [] sym = 3 -> << FNeg(p[1]), p[2], p[3] >>

\* the corner of the image that is the image of corner k of the original
\* (named so that the image has a = front inner corner ... of its own)
MirrorCorner(sym) ==
    CASE sym = 1 -> [a |-> "a", b |-> "b", c |-> "c", d |-> "d"]
      [] sym = 2 -> [a |-> "b", b |-> "a", c |-> "d", d |-> "c"]
      [] sym = 3 -> [a |-> "d", b |-> "c", c |-> "b", d |-> "a"]

MirrorQuad(sym, q) ==
    LET m == MirrorCorner(sym)
    IN [ k \in {"a", "b", "c", "d"} |-> MirrorPoint(sym, q[m[k]]) ]

\* ----------------------- derived wing measures --------------------------
SegSpan(s) == LET ab == VSub(s.b, s.a) IN FSqrt(FAdd(FSq(ab[2]), FSq(ab[3])))
WingSpan(w) == FSum([ i \in DOMAIN w.segs |-> SegSpan(w.segs[i]) ])
=============================================================================
