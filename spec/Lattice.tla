------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Panels of a patch and what hangs on them.  A quadrilateral is           *)
(* [a, b, c, d]; a panel is the sequence of its corners <<P, Q, R, S>>     *)
(* with P, Q on the front edge.                                            *)
(***************************************************************************)
EXTENDS Panelling

\* corner points of the patch with the edge positions xsi = [a, b, c, d] on
\* the strip between ea and eb
PatchQuad(s, ea, eb, xsi) ==
    [ a |-> SegPoint(s, ea, xsi[1]), b |-> SegPoint(s, eb, xsi[2]),
      c |-> SegPoint(s, eb, xsi[3]), d |-> SegPoint(s, ea, xsi[4]) ]

\* cell k of n of the grid on quad q (one cell across, n along the chord)
Cell(q, k, n) ==
    LET t0 == FDiv(ToString(k - 1), ToString(n))
        t1 == FDiv(ToString(k), ToString(n))
    IN << VLerp(q.a, q.d, t0), VLerp(q.b, q.c, t0), VLerp(q.b, q.c, t1), VLerp(q.a, q.d, t1) >>

\* ends of the bound vortex
BoundLeft(p)  == VLerp(p[1], p[4], "0.25")
BoundRight(p) == VLerp(p[2], p[3], "0.25")
BoundMid(p)   == VMid(BoundLeft(p), BoundRight(p))
\* three quarters of the chord, half way across
Collocation(p) == VLerp(VMid(p[1], p[2]), VMid(p[4], p[3]), "0.75")
SpanLine(p)  == VSub(VMid(p[2], p[3]), VMid(p[1], p[4]))
ChordLine(p) == VSub(VMid(p[3], p[4]), VMid(p[1], p[2]))
\* across x along: the orientation of the segment's own normal AB x AD
PanelNormal(p) == VUnit(VCross(VSub(VLerp(p[2], p[3], "0.75"), VLerp(p[1], p[4], "0.75")), ChordLine(p)))
Area(p)   == FMul(VNorm(SpanLine(p)), VNorm(ChordLine(p)))
Aspect(p) == FDiv(VNorm(SpanLine(p)), VNorm(ChordLine(p)))

\* direction of the free stream (angles in degrees)
WindDir(pt) ==
    LET a == FDeg2Rad(pt.alpha)  b == FDeg2Rad(pt.beta)
    IN << FMul(FCos(a), FCos(b)), FNeg(FSin(b)), FMul(FSin(a), FCos(b)) >>

\* from the bound vortex's end to the end of the trailing leg: parallel to the
\* free stream, downstream, and much longer than the aircraft
Trails(dir, from, to, size) ==
    LET l == VSub(to, from)  n == VNorm(l)
    IN /\ VFinite(l)
       /\ FLe(FMul("100.0", size), n)
       /\ FLe(VNorm(VCross(l, dir)), FMul("1e-9", n))
       /\ FLt("0.0", FDot(l, dir))
=============================================================================
